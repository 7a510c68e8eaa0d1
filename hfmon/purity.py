"""Instrumentation of the package: argument snapshots around public calls.

``install()`` replaces every listed function and method by a wrapper that, on
calls coming from outside of the package (not from another wrapped call), takes
a deep snapshot of all arguments before and after the call.  Differences are
appended to ``RECORD`` (not raised, so no try/except of a workload can hide
them)."""
import functools
import importlib
import sys

import numpy as np

from hftools.dataset import DataBlock
from hftools.dataset.dim import DimBase
from hfmon.model import snap, diff

RECORD = []
CALLS = {}
_depth = [0]

FUNCTIONS = {
    "hftools.dataset.arrayobj": [
        "as_strided", "diagonal_view", "expand_diagonals", "dims_union",
        "change_shape", "make_same_dims_list", "make_same_dims",
        "remove_tail", "remove_rep", "make_fullcomplex_array",
        "isfullcomplex", "ismatrix", "replace_dim", "axis_handler",
        "multiple_axis_handler", "make_matrix", "make_vector"],
    "hftools.dataset.dataset": [
        "subset_datablock_by_dims", "convert_matrices_to_elements",
        "is_matrix_name", "interpolate"],
    "hftools.math": [
        "angle", "make_matrix", "chop", "dB", "dBinv", "dB_angle_to_complex",
        "mag_angle_to_complex", "re_im_to_complex", "continous_phase_sqrt",
        "unwrap_phase", "delay", "smooth", "poly_smooth",
        "poly_smooth_magphase", "smooth_magphase", "linear_extrapolate",
        "interpolate", "inv", "matrix_multiply", "flatten_non_matrix", "det",
        "solve_Ab", "lstsq"],
    "hftools.utils": ["chop", "stable_uniq", "uniq", "lex_order", "flatten",
                      "to_numeric", "split_num"],
    "hftools.networks.multiports": ["convert", "unit_matrix", "unit_smatrix"],
    "hftools.networks.spar_functions": [
        "cascadeS", "deembedleft", "deembedright", "deembed",
        "switch_correct", "make_passive_svd", "make_passive_eig",
        "make_reciprocal", "check_passive"],
    "hftools.networks.noise": ["Hconj", "passive_noise"],
    "hftools.file_formats.merge": ["merge_blocks"],
    "hftools.file_formats.common": [
        "process_comment", "make_col_from_matrix", "format_complex_header",
        "format_unit_header"],
    "hftools.file_formats.touchstone": ["save_touchstone", "read_touchstone"],
    "hftools.file_formats.citi": ["save_citi", "read_citi"],
    "hftools.file_formats.mdif": ["save_mdif", "read_mdif"],
    "hftools.file_formats.spdata": ["save_spdata", "read_spdata"],
    "hftools.file_formats": ["read_data"],
    "hftools.file_formats.hdf5.hdf5": ["save_hdf5", "read_hdf5"],
    "hftools.file_formats.hdf5.v_01": ["save_hdf5"],
    "hftools.file_formats.hdf5.v_02": ["save_hdf5", "append_hdf5"],
    "hftools.constants.si_units": [
        "unit_to_multiplier", "string_number_with_unit_to_value",
        "convert_with_unit", "format_number"],
}

ARRAY = ["reorder_dimensions", "transpose", "take", "squeeze", "__getitem__",
         "__and__", "__or__", "__xor__", "__add__", "__sub__", "__mul__",
         "__truediv__", "__pow__", "__rand__", "__ror__", "__rxor__",
         "__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__rpow__",
         "__eq__", "__abs__", "__neg__", "copy", "view", "rss", "sum",
         "mean", "std", "var", "min", "max", "cumprod", "cumsum", "add_dim",
         "dims_index", "info_index", "__repr__", "T", "t"]
METHODS = {
    ("hftools.dataset.arrayobj", "_hfarray"): ARRAY,
    ("hftools.networks.multiports", "_MultiPortArray"):
        ["cascade", "deembed", "view", "__getitem__"],
    ("hftools.dataset.dataset", "DataBlock"): [
        "keep_variables", "copy", "view", "filter",
        "sort", "report", "__str__", "__repr__", "remove_rep", "hyper",
        "squeeze", "interpolate", "__contains__", "__getitem__",
        "allvarnames", "xvalue", "ivar_report", "depvar_report"],
    ("hftools.networks.noise", "NoisyTwoport"): [
        "convert", "T", "noise_parameters", "__repr__"],
    ("hftools.dataset.comments", "Comments"): ["copy", "table", "__repr__"],
    ("hftools.file_formats.common", "Comments"): ["copy", "table",
                                                  "__repr__"],
    ("hftools.dataset.dim", "DimBase"): ["__getitem__", "__eq__", "__ne__",
                                         "__lt__", "__hash__", "__repr__"],
}
# constructors: arguments (not the new object) must come out unchanged
CLASSES = {"hftools.networks.multiports": [
    "SArray", "ZArray", "YArray", "HArray", "GArray", "ABCDArray", "TArray",
    "TpArray"]}


def interesting(x):
    return isinstance(x, (np.ndarray, DimBase, DataBlock, dict, list,
                          tuple)) or hasattr(x, "fullcomments") or \
        (hasattr(x, "N") and hasattr(x, "C"))


def wrap(fn, name, skip=0):
    @functools.wraps(fn)
    def wrapper(*a, **kw):
        if _depth[0]:
            return fn(*a, **kw)
        _depth[0] = 1
        try:
            objs = [x for x in a[skip:] if interesting(x)] + \
                [x for x in kw.values() if interesting(x)]
            before = [snap(x) for x in objs]
            try:
                return fn(*a, **kw)
            finally:
                CALLS[name] = CALLS.get(name, 0) + 1
                for x, b in zip(objs, before):
                    now = snap(x)
                    if now != b:
                        RECORD.append("%s changed its argument: %s" %
                                      (name, diff(b, now)))
        finally:
            _depth[0] = 0
    wrapper._hfmon = True
    return wrapper


_done = []


def install():
    if _done:
        return
    _done.append(1)
    repl = {}
    for mod, names in FUNCTIONS.items():
        m = importlib.import_module(mod)
        for n in names:
            f = getattr(m, n, None)
            if callable(f) and id(f) not in repl and \
                    not getattr(f, "_hfmon", False):
                repl[id(f)] = (f, wrap(f, "%s.%s" % (mod, n)))
    for name, m in list(sys.modules.items()):
        if m is None or not (name.startswith("hftools") or
                             name.startswith("hfmon.checks")):
            continue
        for k, v in list(vars(m).items()):
            if id(v) in repl and repl[id(v)][0] is v:
                setattr(m, k, repl[id(v)][1])
    for (mod, cls), names in METHODS.items():
        try:
            c = getattr(importlib.import_module(mod), cls)
        except (ImportError, AttributeError):
            continue
        for n in names:
            f = c.__dict__.get(n)
            if f is None or getattr(f, "_hfmon", False):
                continue
            label = "%s.%s" % (cls, n)
            if isinstance(f, property):
                setattr(c, n, property(wrap(f.fget, label), f.fset, f.fdel,
                                       f.__doc__))
            elif callable(f):
                setattr(c, n, wrap(f, label))
    for mod, names in CLASSES.items():
        m = importlib.import_module(mod)
        for n in names:
            c = getattr(m, n, None)
            if c is not None and "__init__" in c.__dict__:
                c.__init__ = wrap(c.__init__, n, skip=1)


def take():
    out = list(RECORD)
    del RECORD[:]
    return out
