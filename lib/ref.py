"""Reference models in numpy, written from the documentation and the mathematical definitions.

No code or constant is shared with the repository."""
import math

import numpy as np


# ---------------------------------------------------------------- padding, one axis
def _drift(q, per_cycle, base):
    return base + q * per_cycle


def extension(a, mode, before, after):
    """Infinite extension of the rows of `a` (n, ...) sampled at -before .. n-1+after.

    periodize: n is first made even by repeating the last sample (which adds one sample)."""
    n = a.shape[0]
    if mode == "periodize":
        if n % 2 and (before or after):
            a = np.concatenate([a, a[-1:]], axis=0)
            n += 1
        mode = "circular"
    pos = np.arange(-before, n + after)
    inside = (pos >= 0) & (pos < n)
    if mode == "zeros":
        out = a[np.clip(pos, 0, n - 1)].copy()
        out[~inside] = 0
        return out
    if mode == "replicate" or (n == 1 and mode in ("reflect", "odd_reflect", "smooth")):
        return a[np.clip(pos, 0, n - 1)]
    if mode == "circular":
        return a[pos % n]
    if mode == "symmetric":
        q = pos % (2 * n)
        return a[np.where(q < n, q, 2 * n - 1 - q)]
    if mode == "antisymmetric":
        q = pos % (2 * n)
        v = a[np.where(q < n, q, 2 * n - 1 - q)]
        sign = np.where((pos // n) % 2 == 0, 1, -1).reshape((-1,) + (1,) * (a.ndim - 1))
        return (v * sign).astype(a.dtype)
    if mode == "reflect":
        m = 2 * (n - 1)
        q = pos % m
        return a[np.where(q < n, q, m - q)]
    if mode == "smooth":
        w = exact(a)
        head, tail = w[1] - w[0], w[-1] - w[-2]
        p = pos.reshape((-1,) + (1,) * (a.ndim - 1)).astype(w.dtype)
        out = w[np.clip(pos, 0, n - 1)]
        out = np.where(p < 0, w[0] + p * head, out)
        return np.where(p > n - 1, w[-1] + (p - (n - 1)) * tail, out)
    if mode in ("odd_reflect", "odd_symmetric"):
        # odd about the end points: the extension repeats up to a constant drift per period
        w = exact(a)
        first, last = w[0], w[-1]
        m = 2 * (n - 1) if mode == "odd_reflect" else 2 * n
        q, cyc = pos % m, pos // m
        if mode == "odd_reflect":
            v = np.where(_b(q < n, a), w[np.minimum(q, n - 1)], 2 * last - w[np.where(q < n, 0, m - q)])
        else:
            v = np.where(_b(q < n, a), w[np.minimum(q, n - 1)], 2 * last - w[np.where(q < n, 0, m - 1 - q)])
        return v + _b(cyc, a) * (2 * (last - first))
    raise ValueError(mode)


def _b(v, a):
    return v.reshape((-1,) + (1,) * (a.ndim - 1))


def exact(a):
    """integers stay integers: their arithmetic does not round"""
    return a.astype(np.int64 if a.dtype.kind == "i" else np.float64)


def _stat(block, mode):
    if mode == "mean":
        return block.astype(np.float64).mean(axis=0, keepdims=True)
    if mode == "maximum":
        return block.max(axis=0, keepdims=True)
    if mode == "minimum":
        return block.min(axis=0, keepdims=True)
    if mode == "median":  # lower middle
        return np.sort(block, axis=0)[(block.shape[0] - 1) // 2][None]
    raise ValueError(mode)


STAT = ("maximum", "mean", "minimum", "median")


def pad_1d(a, axis, before, after, mode, cv=(0, 0), ev=(0.0, 0.0), sl=(None, None)):
    """Pads one axis of `a`. Computes in float64 where arithmetic is needed."""
    if before == 0 and after == 0:
        return a
    x = np.moveaxis(a, axis, 0)
    n = x.shape[0]
    if mode == "constant":
        out = np.concatenate([np.broadcast_to(np.asarray(cv[0]), (before,) + x.shape[1:]).astype(x.dtype), x,
                              np.broadcast_to(np.asarray(cv[1]), (after,) + x.shape[1:]).astype(x.dtype)], axis=0)
    elif mode == "linear_ramp":
        w = x.astype(np.float64)
        parts = []
        if before:
            t = (np.arange(before) / before).reshape((-1,) + (1,) * (x.ndim - 1))
            parts.append(ev[0] + t * (w[:1] - ev[0]))
        parts.append(w)
        if after:
            t = ((np.arange(after)[::-1]) / after).reshape((-1,) + (1,) * (x.ndim - 1))
            parts.append(ev[1] + t * (w[-1:] - ev[1]))
        out = np.concatenate(parts, axis=0)
    elif mode in STAT:
        parts = []
        lb = n if sl[0] is None else min(n, max(1, sl[0]))
        la = n if sl[1] is None else min(n, max(1, sl[1]))
        if before:
            parts.append(np.repeat(_stat(x[:lb], mode), before, axis=0))
        parts.append(x)
        if after:
            parts.append(np.repeat(_stat(x[n - la:], mode), after, axis=0))
        out = np.concatenate(parts, axis=0)
    else:
        out = extension(x, mode, before, after)
    return np.moveaxis(out, 0, axis)


def pick(p, i, m):
    """Entry i (negative, right-justified) of a per-axis parameter: lists hold entries."""
    return p[i] if isinstance(p, list) else p


def pad_nd(a, axes, widths, modes, cvs=None, evs=None, sls=None):
    """Sequential padding; every argument is a list with one entry per listed axis (None = skip)."""
    for j, ax in enumerate(axes):
        if widths[j] is None:
            continue
        a = pad_1d(a, ax, widths[j][0], widths[j][1], modes[j],
                   cvs[j] if cvs else (0, 0), evs[j] if evs else (0.0, 0.0), sls[j] if sls else (None, None))
    return a


# ---------------------------------------------------------------- sizes
def same_width(k, s, n):
    if s is None:
        s = k
    out = -(-n // s)
    total = max((out - 1) * s + k - n, 0)
    if s == 1:
        total = max(k - 1, 0)
    return (total - total // 2, total // 2)


def n_windows(n, k, s, d=1):
    span = d * (k - 1) + 1
    return len(range(0, n - span + 1, s))


# ---------------------------------------------------------------- correlation
def corr_1d(a, axis, kernel, stride=1, dilation=1):
    """out[i] = sum_j kernel[j] * a[i * stride + j * dilation] along axis, float64, valid windows."""
    kernel = np.asarray(kernel, dtype=np.float64)
    x = np.moveaxis(np.asarray(a, dtype=np.float64), axis, 0)
    m = n_windows(x.shape[0], len(kernel), stride, dilation)
    out = np.zeros((m,) + x.shape[1:])
    for j, w in enumerate(kernel):
        out += w * x[j * dilation: j * dilation + (m - 1) * stride + 1: stride] if m else 0
    return np.moveaxis(out, 0, axis)


def dense_corr(a, axes, kernels, strides):
    """Correlation with the dense outer product of the kernels over distinct axes (no separability)."""
    a = np.asarray(a, dtype=np.float64)
    ks = [len(k) for k in kernels]
    win = np.lib.stride_tricks.sliding_window_view(a, ks, axis=tuple(axes))  # extra axes at the end
    idx = [slice(None)] * a.ndim
    for ax, s in zip(axes, strides):
        idx[ax] = slice(None, None, s)
    win = win[tuple(idx)]
    dense = np.ones(())
    for k in kernels:
        dense = np.multiply.outer(dense, np.asarray(k, dtype=np.float64))
    m = len(axes)
    return np.tensordot(win, dense, axes=(list(range(win.ndim - m, win.ndim)), list(range(m))))


def same_pad(a, axes, kernel_sizes, strides, mode, cvs=None, evs=None, sls=None):
    """Same padding computed on the original sizes, applied axis by axis."""
    n0 = [a.shape[ax] for ax in axes]
    widths = [same_width(k, s, n) for k, s, n in zip(kernel_sizes, strides, n0)]
    modes = mode if isinstance(mode, list) else [mode] * len(axes)
    return pad_nd(a, axes, widths, modes, cvs, evs, sls), widths


def same_filter(a, axes, kernels, mode, strides=None, cvs=None, evs=None, sls=None):
    """Pads every listed axis for its kernel, then correlates axis by axis."""
    strides = strides or [1] * len(axes)
    p = a
    if mode is not None:
        p, _ = same_pad(a, axes, [len(k) for k in kernels], strides, mode, cvs, evs, sls)
    for ax, k, s in zip(axes, kernels, strides):
        if len(k):
            p = corr_1d(p, ax, k, s)
    return np.asarray(p, dtype=np.float64)


# ---------------------------------------------------------------- Gaussian kernels
def gauss_kernel(k, sigma, order):
    sigma = float(sigma)
    r = k // 2
    x = np.arange(-r, r + 1, dtype=np.float64)
    g = np.exp(-x * x / (2.0 * sigma * sigma))
    g /= math.fsum(g)
    z = x / sigma
    he0, he1 = np.ones_like(z), z
    if order == 0:
        he = he0
    else:
        he = he1
        for m in range(1, order):
            he0, he = he, z * he - m * he0
    v = he * g * ((-1.0) ** order) / sigma ** order  # m-th derivative at x
    v = v[::-1]  # correlation then differentiates
    if k % 2 == 0:
        v = v[:k]
        if order == 0:
            v = v / math.fsum(v)
    return v


# ---------------------------------------------------------------- Bayer
ALIGN = ("RGGB", "BGGR", "GRBG", "GBRG")


def role(alignment, i, j):
    """R, B, GR (green in a red row) or GB of pixel (i, j)."""
    al = alignment.upper()
    r, c = i % 2, j % 2
    ch = al[2 * r + c]
    if ch != "G":
        return ch
    return "GR" if al[2 * r + (1 - c)] == "R" else "GB"


def mirror(i, n):
    """Reflection about the end samples (edge not repeated), for |overhang| < n."""
    if i < 0:
        i = -i
    if i > n - 1:
        i = 2 * (n - 1) - i
    return i
