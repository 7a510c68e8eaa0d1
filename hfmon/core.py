"""Monitor core: deterministic workloads, event accounting, verdicts.

A check is a set of *families*.  A family is a function ``fn(ctx)`` that drives
the real hftools code with inputs drawn from ``ctx.rng`` and lets oracles
observe what came back.  The core

* derives the random stream of every case from (seed, property, family, index),
  so that a case can be replayed alone,
* runs cases in forked workers with a per case watchdog,
* counts monitored events per kind and the distinct states (signatures) seen,
* gives a three-valued verdict: 0 held, 1 violated (with a replay file),
  2 inconclusive (environment fault, or too few events observed).
"""
from __future__ import print_function

import argparse
import collections
import errno
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    """An oracle refuted the property on an observed execution."""


class Skip(Exception):
    """Generated case is outside the property (does not count)."""


class Watchdog(BaseException):
    """A case ran for much longer than any case should (inconclusive)."""


class EnvFault(Exception):
    """Environment trouble (disk, memory): inconclusive."""


def _short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as exc:          # repr of a broken object
        s = "<unprintable %s>" % exc
    return s if len(s) <= n else s[:n] + "..."


class Ctx(object):
    def __init__(self, prop, family, seed, index, tier, scratch):
        self.prop, self.family = prop, family
        self.seed, self.index, self.tier = seed, index, tier
        self.scratch_root = scratch
        key = "%s/%s" % (prop, family)
        k = int(hashlib.sha256(key.encode()).hexdigest()[:8], 16)
        self.rng = np.random.default_rng([seed, k, index])
        self.events = collections.Counter()
        self.sigs = set()
        self.trace = []
        self.known = {}
        self.nchecks = 0
        self._dir = None

    # --- observation -----------------------------------------------------
    def ev(self, kind, n=1):
        """One monitored event was observed."""
        self.events[kind] += n

    def state(self, *sig):
        """A distinct (coverage) state was observed."""
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def log(self, *what):
        """Human readable history of the case (shown in the witness)."""
        self.trace.append(" ".join(_short(w) for w in what))

    # --- oracles ---------------------------------------------------------
    def check(self, cond, msg, **details):
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.asarray(cond).all())
        if not cond:
            d = ", ".join("%s=%s" % (k, _short(v)) for k, v in details.items())
            raise Violation("%s [%s]" % (msg, d))

    def equal(self, got, want, msg, **details):
        """Exact equality of arrays (nan equal), dtype ignored."""
        self.nchecks += 1
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            try:
                ok = bool(np.all((g == w) | ((g != g) & (w != w))))
            except Exception:
                ok = False
        if not ok:
            d = "".join(", %s=%s" % (k, _short(v)) for k, v in details.items())
            raise Violation("%s [got %s, want %s%s]" % (msg, _short(g),
                                                        _short(w), d))

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, **details):
        self.nchecks += 1
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            try:
                with np.errstate(all="ignore"):
                    same = (g == w) | ((g != g) & (w != w))
                    near = np.abs(g - w) <= atol + rtol * np.abs(w)
                    ok = bool(np.all(same | near))
            except TypeError:
                ok = bool(np.all(g == w))
        if not ok:
            d = "".join(", %s=%s" % (k, _short(v)) for k, v in details.items())
            raise Violation("%s [got %s, want %s%s]" % (msg, _short(g),
                                                        _short(w), d))

    def raises(self, exc, fn, msg, *a, **kw):
        self.nchecks += 1
        try:
            res = fn(*a, **kw)
        except exc:
            return
        raise Violation("%s [no %s raised, got %s]" % (msg, exc, _short(res)))

    def finding(self, key, fn):
        """Run *fn* (which checks something listed as a known finding).

        If the oracle refutes it and *key* is listed, it is reported as known;
        if it is not listed it is a violation; if it holds nothing is said."""
        try:
            fn()
        except Violation as exc:
            self.known[key] = str(exc)

    # --- helpers ---------------------------------------------------------
    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def randint(self, lo, hi):
        """lo <= x <= hi"""
        return int(self.rng.integers(lo, hi + 1))

    def sample(self, seq, n):
        idx = self.rng.permutation(len(seq))[:n]
        return [seq[int(i)] for i in idx]

    def shuffled(self, seq):
        return self.sample(seq, len(seq))

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(dir=self.scratch_root)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)


Family = collections.namedtuple("Family", "name fn quick thorough index_all")


class Property(object):
    """Registry of the families deciding one property."""

    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.families = []
        self.floors = {}

    def family(self, quick, thorough=None, floors=()):
        def deco(fn):
            self.families.append(Family(fn.__name__, fn, quick,
                                        thorough or quick * 12, False))
            for f in floors:
                self.floors[f] = 1
            return fn
        return deco

    def enum(self, count):
        """Family whose cases 0..count-1 enumerate a finite space."""
        def deco(fn):
            n = count() if callable(count) else count
            self.families.append(Family(fn.__name__, fn, n, n, True))
            return fn
        return deco


CASE_LIMIT = 120

# how many times the registered number of cases a run executes; the
# properties whose cases are expensive get fewer
REPEAT = collections.defaultdict(lambda: 4, C16=1.5, C28=2, C24=2, C30=2,
                                 C17=2, C23=2, C27=2)


def _alarm(signum, frame):
    raise Watchdog()


def run_case(prop, fam, seed, index, tier, scratch):
    ctx = Ctx(prop.pid, fam.name, seed, index, tier, scratch)
    status, msg = "ok", None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    cwd = os.getcwd()
    try:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    fam.fn(ctx)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            os.chdir(cwd)
    except Violation as exc:
        status, msg = "violation", str(exc)
    except Skip:
        status = "skip"
    except (MemoryError, EnvFault) as exc:
        status, msg = "env", repr(exc)
    except Watchdog:
        status, msg = "watchdog", "case exceeded %d s" % CASE_LIMIT
    except OSError as exc:
        if exc.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE,
                         errno.ENOMEM, errno.EDQUOT):
            status, msg = "env", repr(exc)
        else:
            status = "violation"
            msg = "unexpected exception " + traceback.format_exc(limit=-4)
    except Exception:
        status = "violation"
        msg = "unexpected exception " + traceback.format_exc(limit=-4)
    finally:
        ctx.cleanup()
    return status, msg, ctx


def _worker(args):
    pid, famname, seed, indices, tier, scratch = args
    prop = load(pid)
    fam = [f for f in prop.families if f.name == famname][0]
    out = dict(fam=famname, n=0, skip=0, events=collections.Counter(),
               sigs=set(), bad=[], known={}, checks=0, sample=None, env=[])
    for i in indices:
        status, msg, ctx = run_case(prop, fam, seed, i, tier, scratch)
        if status == "skip":
            out["skip"] += 1
            continue
        out["n"] += 1
        out["checks"] += ctx.nchecks
        out["events"].update(ctx.events)
        out["sigs"] |= ctx.sigs
        out["known"].update(ctx.known)
        if out["sample"] is None and ctx.trace:
            out["sample"] = dict(family=famname, index=i,
                                 trace=ctx.trace[:12])
        if status == "violation":
            out["bad"].append(dict(family=famname, index=i, message=msg,
                                   trace=ctx.trace[-40:]))
            if len(out["bad"]) >= 3:
                break
        elif status in ("env", "watchdog"):
            out["env"].append("%s %s#%d: %s" % (status, famname, i, msg))
            if len(out["env"]) >= 2:
                break
    return out


_loaded = {}


def load(pid):
    if pid not in _loaded:
        mod = importlib.import_module("hfmon.checks.%s" % pid.lower())
        _loaded[pid] = mod.PROP
    return _loaded[pid]


def import_target():
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import h5py                                            # noqa
    import scipy.interpolate, scipy.constants, yaml, six    # noqa
    # never read stale bytecode of /repo: look for it where there is none
    sys.pycache_prefix = "/nonexistent/hfmon-pycache"
    import hftools
    where = os.path.realpath(hftools.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print("hftools was imported from %s, not from %s" % (where, REPO))
        sys.exit(2)


def load_findings(pid):
    try:
        with open(FINDINGS) as f:
            data = json.load(f)
    except IOError:
        return {}
    return dict((x["key"], x) for x in data.get("findings", [])
                if x["property"] == pid)


def write_replay(pid, seed, tier, bad):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, "replay-%s-%s-%d.json" %
                        (pid, bad["family"], bad["index"]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, seed=seed, tier=tier, **bad), f, indent=1)
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    opt = ap.parse_args(argv)
    pid, seed, tier = opt.property, opt.seed, opt.tier
    t0 = time.time()
    budget = 700 if tier == "quick" else 3400

    scratch = tempfile.mkdtemp(prefix="hfmon-%s-" % pid)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    try:
        return _main(opt, pid, seed, tier, t0, budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report_violations(pid, seed, tier, bads):
    for b in bads[:3]:
        path = write_replay(pid, seed, tier, b)
        print("--- %s#%s: %s" % (b["family"], b["index"], b["message"]))
        for line in b["trace"]:
            print("      " + line)
        print("VIOLATION property=%s replay=%s" % (pid, path))


def _main(opt, pid, seed, tier, t0, budget, scratch):
    try:
        import_target()
        prop = load(pid)
    except Exception:
        # the code under test cannot even be imported
        b = dict(family="import", index=0, trace=[],
                 message=traceback.format_exc(limit=-8))
        report_violations(pid, seed, tier, [b])
        return 1

    if opt.replay:
        with open(opt.replay) as f:
            r = json.load(f)
        fam = [f for f in prop.families if f.name == r["family"]][0]
        status, msg, ctx = run_case(prop, fam, r["seed"], r["index"],
                                    r["tier"], scratch)
        for line in ctx.trace:
            print("   ", line)
        print(status, msg)
        return 1 if status == "violation" else 0

    tasks = []
    for fam in prop.families:
        if opt.family and fam.name != opt.family:
            continue
        n = fam.quick if tier == "quick" else fam.thorough
        if not fam.index_all:
            n = max(1, int(n * opt.scale * REPEAT[pid]))
        step = max(1, min(200, n // (opt.jobs * 4) or 1))
        for a in range(0, n, step):
            tasks.append((pid, fam.name, seed, range(a, min(n, a + step)),
                          tier, scratch))
    # interleave families so that a time cap cuts all of them evenly
    order = sorted(range(len(tasks)),
                   key=lambda i: hashlib.md5(b"%d" % i).hexdigest())
    tasks = [tasks[i] for i in order]

    tot = dict(n=0, skip=0, checks=0, events=collections.Counter(),
               sigs=set(), per=collections.Counter())
    bads, envs, samples, known = [], [], {}, {}
    truncated = False
    mp = multiprocessing.get_context("fork")
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    ex = ProcessPoolExecutor(opt.jobs, mp_context=mp)
    futs = [ex.submit(_worker, t) for t in tasks]
    broken = False
    try:
        for f in as_completed(futs, timeout=budget):
            try:
                o = f.result()
            except BrokenProcessPool:
                broken = True
                break
            tot["n"] += o["n"]
            tot["skip"] += o["skip"]
            tot["checks"] += o["checks"]
            tot["events"].update(o["events"])
            tot["sigs"] |= o["sigs"]
            tot["per"][o["fam"]] += o["n"]
            known.update(o["known"])
            envs.extend(o["env"])
            bads.extend(o["bad"])
            if o["sample"] and o["fam"] not in samples:
                samples[o["fam"]] = o["sample"]
            if len(bads) >= 20:
                break
    except TimeoutError:
        truncated = True
    for f in futs:
        f.cancel()
    procs = list((getattr(ex, "_processes", None) or {}).values())
    if truncated or broken or len(bads) >= 20:
        for p in procs:
            try:
                p.terminate()
            except Exception:
                pass
    ex.shutdown(wait=not (truncated or broken), cancel_futures=True)
    if broken:
        # find the task that kills its process: rerun each task alone
        bads.extend(isolate_crash(tasks))
        if not bads:
            envs.append("a worker process died")

    listed = load_findings(pid)
    for key in sorted(known):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid,
                                                     listed[key]["what"]))
        else:
            bads.append(dict(family="finding", index=0, trace=[],
                             message="%s: %s" % (key, known[key])))
    bads.sort(key=lambda b: (b["family"], b["index"]))

    missing = [k for k in prop.floors if not tot["events"].get(k)]
    inconclusive = []
    if not opt.family:
        if missing:
            inconclusive.append("no events of kind %s" % missing)
        if not tot["n"]:
            inconclusive.append("nothing observed")
    if envs:
        inconclusive.extend(envs[:3])

    os.makedirs(EVIDENCE, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot["n"],
                            distinct_nontrivial=len(tot["sigs"]),
                            rule=prop.rule,
                            samples=[samples[k] for k in sorted(samples)][:8],
                            oracle_checks=tot["checks"],
                            monitored_events=dict(sorted(
                                tot["events"].items())),
                            cases_per_family=dict(sorted(
                                tot["per"].items())),
                            rejected_by_generator=tot["skip"],
                            cut_by_time_budget=truncated,
                            inconclusive=inconclusive,
                            known_findings_seen=sorted(known)),
              assumptions=prop.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(bads))
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_short)
        f.write("\n")
    print("%s %s seed=%d: %d executions, %d oracle checks, %d monitored "
          "events of %d kinds, %d distinct states, %.1f s" %
          (pid, tier, seed, tot["n"], tot["checks"],
           sum(tot["events"].values()), len(tot["events"]),
           len(tot["sigs"]), time.time() - t0))
    sys.stdout.flush()
    if bads:
        report_violations(pid, seed, tier, bads)
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive))
        return 2
    return 0


def isolate_crash(tasks):
    """A worker was killed: rerun the tasks one by one in children."""
    end = time.time() + 120
    for t in tasks:
        if time.time() > end:
            break
        pid = os.fork()
        if pid == 0:
            try:
                _worker(t)
            finally:
                os._exit(0)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
            return [dict(family=t[1], index=t[3][0], trace=[],
                         message="process killed by signal %d in cases %s" %
                         (os.WTERMSIG(st), t[3]))]
    return []
