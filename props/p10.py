"""P10 same-padded pooling and filters"""
import numpy as np
from hypothesis import strategies as st

from lib import cmp, gen, padders, pools, ref
from lib.core import Test, call

ID = "P10"
RULE = ("one case = a pooling module with a same padder (or converted by to_filter) applied over some axes; non-trivial = some "
        "border element is read by a kernel of length >= 2 and the input is not constant")
ASSUMPTIONS = ["linear_ramp/mean/affine modes on floating tensors", "sizes claim (ceil(n/stride)) excludes periodize on odd lengths, "
               "which is documented to add one element", "distinct axes"]

MODES = gen.VALUE_MODES


def expect(c, a, axes, sp, strides, y, x, what):
    kernels = pools.kernels_of(c["pool"])
    want, big = padders.filt(a, axes, kernels, sp, strides)
    cmp.near_terms(y, want, padders.bound(a, axes, kernels, sp, strides) if c["pool"]["kind"] in ("sep", "avg") else None, big, what, x.dtype, 256)
    if sp is not None:
        widths = [ref.same_width(len(k), s, a.shape[ax]) for k, s, ax in zip(kernels, strides, axes)]
        for ax, k, s, w, md in zip(axes, kernels, strides, widths, padders.modes(sp, len(axes))):
            if md == "periodize" and a.shape[ax] % 2 and sum(w):
                continue
            n = a.shape[ax] if not k else -(-a.shape[ax] // s)
            cmp.is_true(y.shape[ax] == n, f"{what}: axis {ax} of length {a.shape[ax]} with stride {s} became {y.shape[ax]}")
        return any(sum(w) for w in widths) and len(np.unique(a)) > 1
    return False


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1, 15000)) if big == "huge" else draw(gen.shapes(1, 2, 1, 30, 900)) if big else draw(gen.shapes(1, 4, 1, 7, 300))
    axes = draw(gen.axes_of(len(shape), 1, 3))
    m = len(axes)
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "unit"))), "axes": axes,
            "pool": draw(pools.pools(m, 23 if big else 7)), "stride": draw(gen.strides(m)),
            "pad": draw(padders.padders(m, MODES)), "axform": draw(gen.AXFORM)}


def run_rand(c):
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    pool = call(pools.build, c["pool"], c["stride"], padders.build(c["pad"]))
    y = call(pool.forward, x, axes=gen.axes_arg(c["axes"], c["axform"]))
    strides = gen.norm_strides(c["stride"], [len(k) for k in pools.kernels_of(c["pool"])])
    nt = expect(c, a, axes, c["pad"], strides, y, x, f"{c['pool']['kind']} stride={c['stride']} {padders.label(c['pad'])} axes={c['axes']}")
    return nt, [c["pool"]["kind"], padders.label(c["pad"]), "stride=" + type(c["stride"]).__name__, "axes=%d" % len(axes)]


@st.composite
def filters(draw):
    shape = draw(gen.shapes(1, 4, 1, 7, 300))
    axes = draw(gen.axes_of(len(shape), 1, 3))
    m = len(axes)
    return {"x": draw(gen.tensors(shape)), "axes": axes, "pool": draw(pools.pools(m)), "stride": draw(gen.strides(m)),
            "own": draw(padders.padders(m, MODES, none=True)),
            "chain": [draw(padders.padders(m, MODES, none=True)) for _ in range(draw(st.integers(1, 3)))],
            "use": draw(st.booleans())}


def run_filters(c):
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    pool = call(pools.build, c["pool"], c["stride"], padders.build(c["own"]))
    kernels = pools.kernels_of(c["pool"])
    sp = c["own"]
    for p in c["chain"]:
        r = call(pool.to_filter, padders.build(p)) if p is not None else call(pool.to_filter)
        cmp.is_true(r is pool, "to_filter returns the module itself")
        sp = p if p is not None else sp
        if c["use"] and (sp is not None or all(len(k) <= a.shape[ax] for k, ax in zip(kernels, axes))):
            y = call(pool.forward, x, axes=list(c["axes"]))
            expect(c, a, axes, sp, [1] * len(axes), y, x, f"to_filter({padders.label(p)}) in use")
    if sp is None and not all(len(k) <= a.shape[ax] for k, ax in zip(kernels, axes)):
        return False, ["too small"]
    y = call(pool.forward, x, axes=list(c["axes"]))
    nt = expect(c, a, axes, sp, [1] * len(axes), y, x, f"to_filter chain -> {padders.label(sp)} own={padders.label(c['own'])}")
    return nt, [padders.label(sp), "own=" + padders.label(c["own"]), "chain=%d" % len(c["chain"])]


def box(tier):
    N, K, S = (6, 5, 5) if tier == "quick" else (10, 9, 8)
    for mode in MODES:
        for n in range(1, N + 1):
            for k in range(1, K + 1):
                for s in [None] + list(range(1, S + 1)):
                    yield {"mode": mode, "n": n, "k": k, "s": s}


def run_box(c):
    import torch
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd
    n, k = c["n"], c["k"]
    a = np.array([[(5 * i * i + 3 * i + 7 * j) % 19 - 6.5 for i in range(n)] for j in range(2)], dtype=np.float64)
    w = [float((4 * i) % 7 - 2) for i in range(k)]
    s = k if c["s"] is None else c["s"]
    sp = {"form": "str", "mode": c["mode"]}
    for ax, v in ((1, a), (0, np.ascontiguousarray(a.T))):
        pool = call(SeparablePoolNd, w, c["s"], same_padder=Padder(9, mode=c["mode"]) if ax else c["mode"])
        y = call(pool.forward, torch.from_numpy(v.copy()), axes=ax)
        want, big = padders.filt(v, [ax], [w], sp, [s])
        cmp.close(y, want, f"{c} axis={ax}", scale=max(big, 1e-30))
        if c["mode"] != "periodize" or n % 2 == 0:
            cmp.same(y.shape[ax], -(-n // s), f"{c}: output length")
    return k >= 2 and n >= 2, ["mode=" + c["mode"]]


TESTS = [
    Test("box", run_box, enum=box),
    Test("random", run_rand, strategy=rand(), quick=7000),
    Test("filters", run_filters, strategy=filters(), quick=4000),
    Test("large", run_rand, strategy=rand(big=True), quick=1000), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
]
