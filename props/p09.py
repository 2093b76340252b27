"""P09 separable pooling = dense correlation"""
import numpy as np
from hypothesis import strategies as st
from torchimage.pooling import AvgPoolNd, SeparablePoolNd

from lib import cmp, gen, ref
from lib.core import UNUSABLE, Test, call

ID = "P09"
RULE = ("one case = a tensor pooled over a list of axes with generated kernels and strides; non-trivial = some listed axis has an "
        "asymmetric kernel of length >= 2 and at least two windows in total, and the input is not constant")
ASSUMPTIONS = ["every window fits at least once along every listed axis (\"long\": it does not along one, which is refused or gives no results)", "float32/float64 CPU tensors"]


def scale_of(a, kernels):
    s = float(np.max(np.abs(a))) if a.size else 0.0
    for k in kernels:
        s *= max(1e-30, float(np.sum(np.abs(k))))
    return s


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1)) if big == "huge" else draw(gen.shapes(1, 3, 1, 40, 3000)) if big else draw(gen.shapes(1, 5, 1, 8, 500))
    axes = draw(gen.axes_of(len(shape), 1, 2 if big == "huge" else 3))
    sizes = [shape[a] for a in axes]
    m = len(axes)
    kmax = (75 if m == 1 else 9) if big == "huge" else 17 if big else 6
    if draw(st.integers(0, 2)) == 0:
        kernel = draw(gen.kernels(1, min(kmax, min(sizes)), exact=False))
    else:
        kernel = [draw(gen.kernels(1, min(kmax, n), exact=False)) if draw(st.integers(0, 7)) else [] for n in sizes]
        if not any(kernel):  # at least one real kernel: all-empty lists are the empty specification
            kernel[0] = [1.0]
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "unit", "big"))), "axes": axes, "kernel": kernel,
            "stride": draw(gen.strides(m, 9 if big else 5)), "form": draw(gen.KFORM), "outer": draw(st.sampled_from(("list", "tuple"))),
            "axform": draw(gen.AXFORM)}


def run_rand(c):
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    per = c["kernel"] if isinstance(c["kernel"][0], list) else [c["kernel"]] * len(axes)
    per = [gen.denoted(k, c["form"]) for k in per]
    strides = gen.norm_strides(c["stride"], [len(k) for k in per])
    pool = call(SeparablePoolNd, gen.kernel_arg(c["kernel"], c["form"], c["outer"]), c["stride"])
    y = call(pool.forward, x, axes=gen.axes_arg(c["axes"], c["axform"]))
    live = [(ax, k, s) for ax, k, s in zip(axes, per, strides) if len(k)]
    want = ref.dense_corr(a, *map(list, zip(*live))) if live else a.astype(np.float64)
    terms = ref.dense_corr(np.abs(a), *map(list, zip(*[(ax, np.abs(k), s) for ax, k, s in live]))) if live else np.abs(want)
    cmp.near_terms(y, want, terms, 0, f"SeparablePoolNd axes={c['axes']} kernel={c['kernel']} stride={c['stride']}", x.dtype, 64 * max(1, len(live)))
    asym = any(k != k[::-1] for _, k, _ in live)
    return asym and want.size >= 2 and len(np.unique(a)) > 1, [
        "axes=%d" % len(axes), "kernel=" + ("list" if isinstance(c["kernel"][0], list) else "single"), "form=" + c["form"],
        "stride=" + type(c["stride"]).__name__, "empty" if len(live) < len(axes) else "full", "dtype=" + c["x"]["dtype"],
        "sorted" if axes == sorted(axes) else "unsorted"]


@st.composite
def repeat(draw):
    """axes listed more than once"""
    shape = draw(gen.shapes(1, 3, 5, 11, 900))
    n = draw(st.integers(2, 4))
    axes = draw(st.lists(st.integers(0, len(shape) - 1), min_size=n, max_size=n))
    size = list(shape)
    kernel, stride = [], []
    for a in axes:
        k = draw(gen.kernels(1, min(4, size[a]), exact=False))
        s = draw(st.integers(1, 3))
        kernel.append(k)
        stride.append(s)
        size[a] = ref.n_windows(size[a], len(k), s)
    return {"x": draw(gen.tensors(shape)), "axes": axes, "kernel": kernel, "stride": stride, "neg": draw(st.booleans())}


def run_repeat(c):
    x, a = gen.make(c["x"])
    axes = [q - a.ndim for q in c["axes"]] if c["neg"] else c["axes"]
    y = call(call(SeparablePoolNd, c["kernel"], c["stride"]).forward, x, axes=axes)
    want = a
    for ax, k, s in zip(c["axes"], c["kernel"], c["stride"]):
        want = ref.corr_1d(want, ax, k, s)
    cmp.close(y, want, f"repeated axes {axes}", dtype=x.dtype, scale=scale_of(a, c["kernel"]), ulp=256)
    return len(set(c["axes"])) < len(c["axes"]) and want.size > 0, ["repeated" if len(set(c["axes"])) < len(c["axes"]) else "distinct"]


@st.composite
def default(draw):
    """default axes: everything but the first two dimensions; None: everything"""
    shape = draw(gen.shapes(2, 5, 2, 5, 400))
    none = draw(st.booleans())
    m = len(shape) if none else len(shape) - 2
    k = draw(st.sampled_from(("single", "list")))
    kernel = draw(gen.kernels(1, 2)) if k == "single" or m == 0 else [draw(gen.kernels(1, 2)) for _ in range(m)]
    return {"x": draw(gen.tensors(shape)), "kernel": kernel, "stride": draw(st.one_of(st.none(), st.integers(1, 3))), "none": none,
            "avg": draw(st.booleans())}


def run_default(c):
    x, a = gen.make(c["x"])
    axes = list(range(0 if c["none"] else 2, a.ndim))
    per = c["kernel"] if isinstance(c["kernel"][0], list) else [c["kernel"]] * len(axes)
    if c["avg"]:
        per = [[1.0 / len(k)] * len(k) for k in per]
        size = [len(k) for k in per] if isinstance(c["kernel"][0], list) else len(c["kernel"])
        pool = call(AvgPoolNd, size, c["stride"])
    else:
        pool = call(SeparablePoolNd, c["kernel"], c["stride"])
    y = call(pool.forward, x, axes=None) if c["none"] else call(pool.forward, x)
    want = ref.dense_corr(a, axes, per, gen.norm_strides(c["stride"], [len(k) for k in per])) if axes else a
    cmp.close(y, want, f"default axes none={c['none']}", dtype=x.dtype, scale=scale_of(a, per), ulp=256)
    return bool(axes), ["none" if c["none"] else "slice"]


def box(tier):
    N, K, S = (9, 6, 6) if tier == "quick" else (16, 10, 10)
    for n in range(1, N + 1):
        for k in range(0, min(n, K) + 1):
            for s in [None] + list(range(1, S + 1)):
                yield {"n": n, "k": k, "s": s}


def run_box(c):
    import torch
    n, k = c["n"], c["k"]
    a = np.array([[(7 * i * i + 3 * i + 11 * j) % 23 - 9 for i in range(n)] for j in range(2)], dtype=np.float64)
    w = [float((3 * i) % 5 - 1) + 0.5 for i in range(k)]
    s = k if c["s"] is None else c["s"]
    for ax, v in ((1, a), (0, np.ascontiguousarray(a.T))):
        y = call(call(SeparablePoolNd, w, c["s"]).forward, torch.from_numpy(v.copy()), axes=ax)
        cmp.close(y, ref.corr_1d(v, ax, w, s) if k else v, f"n={n} k={k} stride={c['s']} axis={ax}", scale=scale_of(v, [w] if k else []))
    return k >= 2, ["k=%d" % k]


@st.composite
def long(draw):
    shape = draw(gen.shapes(1, 4, 1, 6, 300))
    axes = draw(gen.axes_of(len(shape), 1, 3))
    m = len(axes)
    at = draw(st.integers(0, m - 1))
    n = shape[axes[at]]
    over = n + draw(st.integers(1, 4))
    return {"x": draw(gen.tensors(shape)), "axes": axes, "at": at, "over": over, "others": draw(st.integers(1, 2)), "avg": draw(st.booleans()),
            "lst": draw(st.booleans()), "stride": draw(st.sampled_from((None, 1, 1, 2, 3))), "seed": draw(st.integers(0, 99))}


def run_long(c):
    """no window of a kernel longer than its axis fits: an error or no results, never results of another kernel"""
    x, a = gen.make(c["x"])
    m = len(c["axes"])
    sizes = [c["over"] if i == c["at"] else min(c["others"], a.shape[q]) for i, q in enumerate(c["axes"])] if c["lst"] else c["over"]
    kern = lambda k: [1.0 + (c["seed"] + 3 * i) % 5 for i in range(k)]
    if c["avg"]:
        pool = call(AvgPoolNd, sizes, c["stride"])
    else:
        pool = call(SeparablePoolNd, [kern(k) for k in sizes] if c["lst"] else kern(sizes), c["stride"])
    try:
        y = pool.forward(x, axes=c["axes"])
    except UNUSABLE:
        return True, ["refused", "list" if c["lst"] else "one"]
    cmp.is_true(y.numel() == 0, f"kernels of {sizes} on shape {a.shape} axes {c['axes']} stride {c['stride']}: a result of shape {tuple(y.shape)}")
    return True, ["no result"]


TESTS = [
    Test("box", run_box, enum=box),
    Test("random", run_rand, strategy=rand(), quick=9000),
    Test("repeat", run_repeat, strategy=repeat(), quick=3000),
    Test("long", run_long, strategy=long(), quick=2000),
    Test("default", run_default, strategy=default(), quick=2500),
    Test("large", run_rand, strategy=rand(big=True), quick=1500), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
]
