"""Reference SSIM in float64 with per-pixel error bounds for the dtype under test."""
import numpy as np

from . import padders, ref


def blur(a, axes, kernels, pad, excl):
    v, _ = padders.filt(a, axes, kernels, pad)
    if excl and pad is not None:
        v = v / padders.filt(np.ones_like(a, dtype=np.float64), axes, kernels, pad)[0]
    return v


def ratio(n, d, e):
    """n / d where both carry an absolute error e: (value, error bound)"""
    with np.errstate(all="ignore"):
        r = n / d
        err = e * (1 + np.abs(r)) / np.maximum(np.abs(d) - e, 0)
    return r, np.where(np.isfinite(err), err, np.inf)


def terms(a, b, axes, kernels, pad, K1, K2, sample, eps, excl=False):
    """(l, l_err, cs, cs_err): the luminance and the contrast-structure factors"""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    bl = lambda v: blur(v, axes, kernels, pad, excl)
    m1, m2 = bl(a), bl(b)
    f = 1.0
    if sample:
        n = float(np.prod([len(k) for k in kernels]))
        f = n / (n - 1)
    s1, s2, s12 = (bl(a * a) - m1 * m1) * f, (bl(b * b) - m2 * m2) * f, (bl(a * b) - m1 * m2) * f
    # magnitude of the moments, including borders and kernels of either sign
    big = 0.0
    for v in (a, b):
        p = padders.pad_same(v, axes, [len(k) for k in kernels], [1] * len(axes), pad)
        q = padders.pad_same(v * v, axes, [len(k) for k in kernels], [1] * len(axes), pad)
        w = float(np.prod([np.sum(np.abs(k)) for k in kernels]))
        big = max(big, float(np.max(np.abs(p))) ** 2 * max(w, w * w), float(np.max(np.abs(q))) * w)
    w1 = padders.pad_same(a * b, axes, [len(k) for k in kernels], [1] * len(axes), pad)
    big = max(big, float(np.max(np.abs(w1))) * float(np.prod([np.sum(np.abs(k)) for k in kernels])))
    e = 64 * eps * (big + K1 * K1 + K2 * K2) * max(f, 1.0)
    l, le = ratio(2 * m1 * m2 + K1 ** 2, m1 * m1 + m2 * m2 + K1 ** 2, e)
    c, ce = ratio(2 * s12 + K2 ** 2, s1 + s2 + K2 ** 2, 4 * e)
    return l, le, c, ce


def product(l, le, c, ce):
    with np.errstate(all="ignore"):
        err = np.abs(l) * ce + np.abs(c) * le + le * ce
    return l * c, np.where(np.isfinite(err), err, np.inf)


def crop(v, axes, kernels, pad, on):
    if not on or pad is None:
        return v
    idx = [slice(None)] * v.ndim
    for ax, k in zip(axes, kernels):
        w = ref.same_width(len(k), 1, v.shape[ax])
        idx[ax] = slice(w[0], max(w[0], v.shape[ax] - w[1]))
    return v[tuple(idx)]
