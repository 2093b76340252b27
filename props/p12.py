"""P12 Gaussian kernels and Gaussian pooling"""
import functools

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.pooling import GaussianPoolNd
from torchimage.pooling.gaussian import gaussian_kernel_1d

from lib import cmp, gen, padders, pools, ref
from lib.core import Test, Violation, call, rejects

ID = "P12"
RULE = ("one case = one kernel (size, sigma, order) or one GaussianPoolNd call with per-axis parameters; non-trivial = kernel size "
        ">= 3 (kernels), or a varying input and a kernel of size >= 2 (pooling)")
ASSUMPTIONS = ["sigma in [0.05, 400], kernel size 1..151 and order 0..6, or up to 2501 and 14"]


@functools.lru_cache(None)
def hermite(m):
    """coefficients of the probabilists' Hermite polynomial, lowest power first"""
    a, b = [1], [0, 1]
    for j in range(m):
        a, b = b, [(b[i - 1] if i else 0) - (j + 1) * (a[i] if i < len(a) else 0) for i in range(len(b) + 1)]
    return a


def check_kernel(k, sigma, order):
    what = f"gaussian_kernel_1d({k}, {sigma}, {order})"
    got = call(gaussian_kernel_1d, k, sigma, order)
    got = np.asarray(got, dtype=np.float64)
    want = ref.gauss_kernel(k, sigma, order)
    cmp.same(got.shape, (k,), what + ": shape")
    # the scale of the individual polynomial terms, which may cancel
    full = ref.gauss_kernel(2 * (k // 2) + 1, sigma, 0)
    r = k // 2
    xs = np.abs(np.arange(-r, r + 1)) / sigma
    terms = sum(float(abs(h)) * xs ** i for i, h in enumerate(hermite(order))) * full / float(sigma) ** order
    tol = 2e-14 * (1 + order) * float(np.max(terms)) * (2 if k % 2 == 0 else 1)
    tol = max(tol, 1e-12 * float(np.max(np.abs(want))))
    cmp.margin(np.abs(got - want), tol, what)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation(f"{what}[{i}] = {got[i]!r}, expected {want[i]!r}")
    if order == 0:
        cmp.is_true(abs(float(np.sum(got)) - 1) < 1e-12, what + " does not sum to 1")
        cmp.is_true(bool((got >= 0).all()), what + " is negative")
    if k % 2:
        sign = 1 if order % 2 == 0 else -1
        cmp.is_true(float(np.max(np.abs(got - sign * got[::-1]))) <= 2 * tol, what + ": parity")
    return want


def box(tier):
    K, O = (13, 4) if tier == "quick" else (25, 6)
    for k in range(1, K + 1):
        for o in range(O + 1):
            for s in (0.3, 0.5, 1, 1.5, 2.7, 8.0):
                yield {"k": k, "o": o, "s": s}


def run_box(c):
    check_kernel(c["k"], c["s"], c["o"])
    return c["k"] >= 3, ["order=%d" % c["o"], "even" if c["k"] % 2 == 0 else "odd"]


@st.composite
def one(draw):
    s = draw(st.one_of(st.floats(0.3, 8.0).map(lambda v: round(v, 4)), st.floats(0.1, 60.0), st.floats(0.3, 8.0)))
    return {"k": draw(st.one_of(st.integers(1, 25), st.integers(1, 25), st.integers(26, 151))), "s": s, "o": draw(st.integers(0, 6)),
            "near": draw(st.sampled_from((1e-9, 1e-6, -1e-7, 1e-4, -1e-3)))}


@st.composite
def deep(draw):
    """high orders and long kernels, whose polynomial terms exceed every integer type"""
    k = draw(st.integers(1, 40) | st.integers(100, 700) | st.sampled_from((999, 1000, 1001, 1501, 2000, 2001, 2501)))
    s = draw(st.floats(0.05, 4.0) | st.floats(1.0, 400.0) | st.sampled_from((0.05, 0.1, 1, 2, 10, 100)))
    return {"k": k, "s": s, "o": draw(st.integers(0, 14))}


def run_deep(c):
    check_kernel(c["k"], c["s"], c["o"])
    return c["k"] >= 3, ["order=%d" % c["o"], "long" if c["k"] > 99 else "short"]


def run_one(c):
    k, s, o = c["k"], c["s"], c["o"]
    want = check_kernel(k, s, o)
    first = call(gaussian_kernel_1d, k, s, o)
    check_kernel(k, s * (1 + c["near"]), o)
    if isinstance(first, list):  # what a caller does to its list stays with the caller
        first[:] = [7.0] * (k + 1)
    check_kernel(k, s, o)
    if k >= 3 and o >= 1 and k % 2:
        # correlating samples of x^o with the kernel gives about o! for a wide enough kernel
        if k // 2 >= 6 * s:
            x = np.arange(-(k // 2), k // 2 + 1, dtype=np.float64) ** o
            v = float(np.dot(x, np.asarray(gaussian_kernel_1d(k, s, o))))
            f = float(np.prod(range(1, o + 1)))
            if s >= 1.0:
                cmp.is_true(abs(v - f) < 0.02 * f, f"order {o} kernel maps x^{o} to {v}, expected {f}")
    neg = -1 - (o % 3)
    rejects(gaussian_kernel_1d, k, s, neg, exc=ValueError, what=f"order {neg}")
    return k >= 3, ["order=%d" % o, "even" if k % 2 == 0 else "odd"]


@st.composite
def pooling(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1, 15000)) if big == "huge" else draw(gen.shapes(1, 3, 1, 60, 4000)) if big else draw(gen.shapes(1, 4, 1, 9, 400))
    axes = draw(gen.axes_of(len(shape), 1, 3))
    m = len(axes)
    pad = draw(padders.padders(m, gen.SAME_MODES, none=True, forms=("str",)))
    hi = 33 if big else 9
    kmax = hi if pad else min(hi, min(shape[a] for a in axes))
    per = lambda item: draw(st.one_of(item, st.lists(item, min_size=m, max_size=m)))
    return {"x": draw(gen.tensors(shape)), "axes": axes, "pad": pad, "stride": draw(gen.strides(m)),
            "pool": {"kind": "gauss", "m": m, "k": per(st.integers(1, kmax)), "sigma": per(st.sampled_from([0.4, 0.75, 1, 1.5, 2, 3.3, 8.0] if big else [0.4, 0.75, 1, 1.5, 2, 3.3])),
                     "order": per(st.integers(0, 4))}, "tuple": draw(st.booleans()), "filter": draw(st.booleans()),
            "dflt": draw(st.booleans())}


def run_pooling(c):
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    p = c["pool"]
    t = (lambda v: tuple(v) if isinstance(v, list) else v) if c["tuple"] else (lambda v: v)
    if c["dflt"] and p["order"] == 0 and c["stride"] is None:
        pool = call(GaussianPoolNd, t(p["k"]), t(p["sigma"]), same_padder=padders.build(c["pad"]))
    else:
        pool = call(GaussianPoolNd, t(p["k"]), t(p["sigma"]), t(p["order"]), t(c["stride"]), same_padder=padders.build(c["pad"]))
    kernels = pools.kernels_of(p)
    strides = gen.norm_strides(c["stride"], [len(k) for k in kernels])
    if c["filter"]:
        pool.to_filter()
        strides = [1] * len(axes)
    y = call(pool.forward, x, axes=c["axes"])
    want, big = padders.filt(a, axes, kernels, c["pad"], strides)
    cmp.close(y, want, f"GaussianPoolNd({p['k']}, {p['sigma']}, {p['order']}) axes={c['axes']}", dtype=x.dtype, scale=max(big, 1e-30), ulp=512)
    return len(np.unique(a)) > 1 and max(len(k) for k in kernels) > 1, [
        "axes=%d" % len(axes), "k=" + type(p["k"]).__name__, "sigma=" + type(p["sigma"]).__name__, "order=" + type(p["order"]).__name__,
        padders.label(c["pad"])]


TESTS = [
    Test("box", run_box, enum=box),
    Test("kernel", run_one, strategy=one(), quick=6000),
    Test("deep", run_deep, strategy=deep(), quick=2500),
    Test("pooling", run_pooling, strategy=pooling(), quick=6000),
    Test("large", run_pooling, strategy=pooling(big=True), quick=800), Test("huge", run_pooling, strategy=pooling(big="huge"), quick=150),
]
