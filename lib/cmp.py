"""Comparisons; every mismatch is a Violation."""
import os

import numpy as np
import torch

from .core import Violation

TINY = {torch.float64: 2.3e-308, torch.float32: 1.2e-38}
EPS = {torch.float64: 2.3e-16, torch.float32: 1.2e-7, torch.float16: 9.8e-4}


MARGIN = os.environ.get("VERIF_MARGIN")  # development: where to note comparisons that used much of their tolerance


def margin(diff, tol, what):
    if MARGIN:
        with np.errstate(all="ignore"):
            r = np.asarray(diff) / np.asarray(tol)
            r = float(np.max(np.where(np.isfinite(r), r, 0))) if np.size(r) else 0.0
        if r > 0.1:
            with open(MARGIN, "a") as f:
                f.write("%.3f %s\n" % (r, what[:160].replace("\n", " ")))


def arr(t, what="result"):
    if not torch.is_tensor(t):
        raise Violation(f"{what}: expected a tensor, got {type(t).__name__}")
    return t.detach().cpu().numpy()


def same_dtype(t, dtype, what="result"):
    if not torch.is_tensor(t):
        raise Violation(f"{what}: expected a tensor, got {type(t).__name__}")
    if t.dtype != dtype:
        raise Violation(f"{what}: dtype {t.dtype}, expected {dtype}")


def shape_is(t, shape, what="result"):
    if not torch.is_tensor(t):
        raise Violation(f"{what}: expected a tensor, got {type(t).__name__}")
    if tuple(t.shape) != tuple(shape):
        raise Violation(f"{what}: shape {tuple(t.shape)}, expected {tuple(shape)}")


def _where(bad, got, ref):
    i = tuple(int(k) for k in np.argwhere(bad)[0]) if bad.ndim else ()
    return f"at {i}: got {got[i]!r}, expected {ref[i]!r} ({int(bad.sum())} of {bad.size} differ)"


def equal(t, ref, what="result", dtype=None):
    """Exact equality of values and shape (nan equals nan)."""
    got = arr(t, what)
    ref = np.asarray(ref)
    shape_is(t, ref.shape, what)
    if dtype is not None:
        same_dtype(t, dtype, what)
    if ref.dtype.kind == "f" or got.dtype.kind == "f":
        bad = ~((got == ref) | (np.isnan(got) & np.isnan(ref)))
    else:
        bad = got != ref
    if np.any(bad):
        raise Violation(f"{what}: {_where(np.asarray(bad), got, ref)}")


def close(t, ref, what="result", dtype=None, ulp=256.0, scale=None, atol=0.0, elementwise=False):
    """|got - ref| <= ulp * (eps(dtype) * scale + tiny(dtype)) + atol, where scale defaults to the largest |ref|
    (or to each |ref| with elementwise=True)."""
    got = arr(t, what)
    ref = np.asarray(ref, dtype=np.float64)
    shape_is(t, ref.shape, what)
    if dtype is not None:
        same_dtype(t, dtype, what)
    if ref.size == 0:
        return
    eps = EPS.get(t.dtype, 2.3e-16)
    if elementwise:
        s = np.abs(ref)
        if scale is not None:
            s = np.maximum(s, scale)
    else:
        fin = np.abs(ref[np.isfinite(ref)])
        s = float(fin.max()) if fin.size else 0.0
        if scale is not None:
            s = max(s, scale)
    g = got.astype(np.float64)
    with np.errstate(invalid="ignore"):
        tol = ulp * (eps * s + TINY.get(t.dtype, 0.0)) + atol
        ok = np.abs(g - ref) <= tol
        margin(np.abs(g - ref), tol, what)
    ok |= (g == ref) | (np.isnan(g) & np.isnan(ref))
    if not np.all(ok):
        raise Violation(f"{what}: {_where(~np.asarray(ok), g, ref)} tol {ulp * eps * np.max(s) + atol:.3g}")


def is_true(cond, what):
    if not cond:
        raise Violation(what)


def same(got, ref, what):
    """Equality of plain Python values."""
    try:
        ok = bool(got == ref)
    except Exception:
        ok = False
    if not ok:
        raise Violation(f"{what}: got {got!r}, expected {ref!r}")


def near_terms(t, ref, terms, big, what, dtype, ulp):
    """close to rounding of the terms of each element when they are known, of the largest otherwise"""
    if terms is None:
        close(t, ref, what, dtype=dtype, scale=max(big, 1e-30), ulp=ulp)
    else:
        close(t, ref, what, dtype=dtype, scale=terms, ulp=ulp, elementwise=True)
