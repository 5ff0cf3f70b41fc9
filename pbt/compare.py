"""Comparison of results of the code under test with references."""

import numpy as np

from .boot import B, matrix
from .specs import Ref

#: Tolerance relative to the magnitude of the terms of an entry, respectively relative to
#: the largest magnitude over the matrix, by precision. The second is larger than a few
#: rounding errors because low-rank columns are allowed to be matched approximately.
TOL = {"f8": (1e-9, 1e-9), "f4": (2e-4, 2e-4)}


def to_np(x):
    """Dense NumPy version of a result."""
    x = B.dense(x) if isinstance(x, matrix.AbstractMatrix) else x
    return np.asarray(B.to_numpy(x))


def worst(got, val, mag, prec="f8", tol=None, matrix_axes=2, atol=0.0):
    """Largest error in units of the tolerance."""
    rel_e, rel_m = TOL[prec] if tol is None else tol
    n = min(matrix_axes, val.ndim)
    scale = mag.max(axis=tuple(range(-n, 0)), keepdims=True) if n and mag.size else mag
    bound = rel_e * mag + rel_m * scale + 1e-280 + atol
    with np.errstate(all="ignore"):
        err = np.abs(got.astype(np.float64) - val)
        r = np.where(got == val, 0.0, err / bound)
    # NaNs in the result are never fine, because references are finite.
    r = np.where(np.isnan(r), np.inf, r)
    return float(r.max()) if r.size else 0.0


def check(t, res, ref, what, prec="f8", tol=None, matrix_axes=2, is_matrix=None, atol=0.0):
    """Check the shape and the values of a result.

    Args:
        res (object): Result of the code under test.
        ref (:class:`.specs.Ref`): What it should be.
        is_matrix (bool, optional): Require that the result is an `AbstractMatrix`
            (`True`) or a numeric tensor (`False`).
    """
    if is_matrix is not None:
        got = isinstance(res, matrix.AbstractMatrix)
        if got != is_matrix:
            t.violate(
                f"{what}: expected {'a matrix' if is_matrix else 'a tensor'}, got {type(res).__name__}"
            )
    with t.sut(f"{what}: converting the result to dense"):
        got = to_np(res)
        shape = tuple(int(d) for d in B.shape(res))
    if got.shape != ref.val.shape:
        t.violate(f"{what}: dense shape {got.shape}, expected {ref.val.shape}")
    if shape != ref.val.shape:
        t.violate(f"{what}: reported shape {shape}, expected {ref.val.shape}")
    if got.dtype.kind not in "iuf":
        t.violate(f"{what}: the result has data type {got.dtype}")
    if got.dtype.kind in "iu" and ref.mag.size and ref.mag.max() > 2.0**53:
        # Integers overflow, which is not up to this code.
        t.trivial()
        t.tag("overflow")
        return got
    w = worst(got, ref.val, ref.mag, prec, tol, matrix_axes, atol)
    if w > 1:
        i = _argworst(got, ref)
        t.violate(
            f"{what}: value {got[i] if got.ndim else got} at {list(map(int, i))}, expected "
            f"{ref.val[i] if got.ndim else ref.val} ({w:.3g} x tolerance)"
        )
    return got


def _argworst(got, ref):
    if got.ndim == 0:
        return ()
    with np.errstate(all="ignore"):
        r = np.abs(got.astype(np.float64) - ref.val)
    r = np.where(np.isnan(r), np.inf, r)
    return np.unravel_index(int(np.argmax(r)), r.shape)


def prec_of(*dts):
    """Precision to compare in, given sets of data types of the operands."""
    flat = set().union(*dts)
    return "f4" if "f4" in flat else "f8"
