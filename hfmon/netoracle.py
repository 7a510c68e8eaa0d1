"""Port-equation oracle for network parameters (independent of hftools).

A linear N-port is the space of port vectors (V, I) it allows.  A parameter
matrix A of some type says  dep(V, I) = A ind(V, I)  for two linear maps."""
import numpy as np


def maps(kind, n, z0=50.0):
    """(dep, ind): two n x 2n matrices acting on (V1..Vn, I1..In)."""
    one, zero = np.eye(n), np.zeros((n, n))
    V, I = np.hstack([one, zero]), np.hstack([zero, one])
    a = (V + z0 * I) / (2 * np.sqrt(z0))
    b = (V - z0 * I) / (2 * np.sqrt(z0))
    if kind == "Z":
        return V, I
    if kind == "Y":
        return I, V
    if kind == "S":
        return b, a
    assert n == 2
    V1, V2, I1, I2 = V[0], V[1], I[0], I[1]
    a1, a2, b1, b2 = a[0], a[1], b[0], b[1]
    dep, ind = {"G": ([I1, V2], [V1, I2]),
                "H": ([V1, I2], [I1, V2]),
                "ABCD": ([V1, I1], [V2, -I2]),
                "T": ([b1, a1], [a2, b2]),
                "Tp": ([a1, b1], [b2, a2])}[kind]
    return np.array(dep), np.array(ind)


def basis(kind, A, z0=50.0):
    """Columns spanning the port vectors allowed by matrix A (..., n, n)."""
    n = A.shape[-1]
    dep, ind = maps(kind, n, z0)
    # (dep; ind) x = (A u; u)
    full = np.vstack([dep, ind])
    u = np.broadcast_to(np.eye(n), A.shape)
    rhs = np.concatenate([A, u], axis=-2)
    return np.linalg.solve(np.broadcast_to(full, A.shape[:-2] + full.shape),
                           rhs)


def params(kind, B, z0=50.0):
    """Parameter matrix of the network spanned by B, and its conditioning."""
    n = B.shape[-1]
    dep, ind = maps(kind, n, z0)
    i = ind @ B
    cond = np.linalg.cond(i).max() if i.size else 1.0
    if not cond < 1e12:
        return None, np.inf
    return (dep @ B) @ np.linalg.inv(i), cond


def residual(kind, A, B, z0=50.0):
    """How badly do the port vectors B satisfy the equations of A?"""
    dep, ind = maps(kind, B.shape[-1], z0)
    return (dep @ B) - A @ (ind @ B)
