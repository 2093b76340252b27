"""P15 unsharp masking"""
import numpy as np
from hypothesis import strategies as st
from torchimage.filtering import UnsharpMask

from lib import cmp, gen, padders, pools
from lib.core import Test, call

ID = "P15"
RULE = ("one case = one UnsharpMask call; non-trivial = amount is not 0 and x - blur(x) is not identically zero (threshold cases: "
        "some differences fall on each side of the threshold)")
ASSUMPTIONS = ["with rounding arithmetic, thresholds are placed in a gap between the sorted magnitudes of x - blur(x); exact ties "
               "(difference equal to the threshold, which is not below it) are tested with dyadic arithmetic only",
               "a padder is present (given, or the blur's own), so blur keeps the shape"]


def threshold(d, q, eps):
    """A threshold inside a clear gap of the sorted magnitudes |d|, near quantile q."""
    v = np.unique(np.abs(d))
    big = max(float(v[-1]), 1e-30)
    v = np.concatenate([[0.0], v, [2 * big]])
    gaps = [i for i in range(len(v) - 1) if v[i + 1] - v[i] > 1e4 * eps * big and v[i + 1] > 0]
    if not gaps:
        return None
    i = gaps[min(int(q * len(gaps)), len(gaps) - 1)]
    return 0.5 * (v[i] + v[i + 1])


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1, 15000)) if big == "huge" else draw(gen.shapes(1, 3, 1, 50, 3000)) if big else draw(gen.shapes(1, 4, 1, 7, 300))
    dflt = len(shape) > 2 and draw(st.integers(0, 4)) == 0
    axes = list(range(2, len(shape))) if dflt else draw(gen.axes_of(len(shape), 1, 3))
    m = len(axes)
    own = draw(padders.padders(m, gen.SAME_MODES, none=True))
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "unit"))), "axes": axes, "dflt": dflt,
            "blur": draw(pools.pools(m, 15 if big else 6, orders=False)), "stride": draw(gen.strides(m)), "own": own,
            "pad": draw(padders.padders(m, gen.SAME_MODES, none=own is not None)),
            "amount": draw(st.one_of(st.none(), st.sampled_from([0, 0.5, -0.5, 1, 2.5, -3]))),
            "thr": draw(st.one_of(st.none(), st.just(0), st.floats(0, 1))), "form": draw(gen.AXFORM)}


def run_rand(c):
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    pad = c["pad"] or c["own"]
    b, big = padders.filt(a, axes, pools.kernels_of(c["blur"]), pad)
    d = a.astype(np.float64) - b
    big = max(big, float(np.max(np.abs(a))), 1e-30)
    eps = cmp.EPS[x.dtype]
    kw = {}
    thr = None
    if c["thr"] is not None:
        thr = 0 if c["thr"] == 0 else threshold(np.concatenate([d.ravel(), [big]]), c["thr"], eps * 100)
        if thr is not None:
            kw["threshold"] = thr
    if c["amount"] is not None:
        kw["amount"] = c["amount"]
    if c["pad"] is not None:
        kw["padder"] = padders.build(c["pad"])
    amount = 0.5 if c["amount"] is None else c["amount"]
    um = call(UnsharpMask, pools.build(c["blur"], c["stride"], padders.build(c["own"])), **kw)
    y = call(um.forward, x) if c["dflt"] else call(um.forward, x, axes=gen.axes_arg(c["axes"], c["form"]))
    t = np.where(np.abs(d) < thr, 0.0, d) if thr else d
    want = a.astype(np.float64) + amount * t
    cmp.close(y, want, f"UnsharpMask(amount={amount}, threshold={thr}) {c['blur']['kind']} {padders.label(pad)} axes={c['axes']}",
              dtype=x.dtype, scale=big * (1 + abs(amount)), ulp=512)
    if amount == 0:
        cmp.close(y, a, "amount 0", dtype=x.dtype, ulp=4)
    both = thr is None or thr == 0 or (bool((t == 0).any()) and bool((t != 0).any()))
    return amount != 0 and bool(np.any(np.abs(d) > 1e-9)) and both, [
        "thr=none" if thr is None else "thr=0" if thr == 0 else "thr>0", "own=" + padders.label(c["own"]), padders.label(pad), c["blur"]["kind"]]


@st.composite
def const(draw):
    shape = draw(gen.shapes(1, 4, 1, 9, 300))
    axes = draw(gen.axes_of(len(shape), 1, 3))
    return {"shape": shape, "axes": axes, "blur": draw(pools.pools(len(axes), 7, kinds=("avg", "gauss", "sep"), orders=False, weights="positive", empty=False)),
            "mode": draw(st.sampled_from(gen.REPLICATING)), "v": draw(st.sampled_from([1, -3, 0.5, 7.25])),
            "amount": draw(st.sampled_from([0.5, 2, -1])), "thr": draw(st.sampled_from([0, 0.01, 2])), "dt": draw(st.sampled_from(("f64", "f32")))}


def run_const(c):
    import torch
    x = torch.full(c["shape"], float(c["v"]), dtype=gen.td(c["dt"]))
    um = call(UnsharpMask, pools.build(c["blur"]), c["amount"], c["thr"], padder=c["mode"])
    y = call(um.forward, x, axes=c["axes"])
    cmp.close(y, np.full(c["shape"], float(c["v"])), "constant image under unsharp masking", dtype=x.dtype, ulp=512)
    return True, [c["mode"], c["blur"]["kind"]]


@st.composite
def exact(draw):
    """dyadic kernels on integers: every intermediate is exact, so a difference may equal the threshold"""
    shape = draw(gen.shapes(1, 3, 2, 7, 200))
    axes = draw(gen.axes_of(len(shape), 1, 2))
    return {"x": draw(gen.tensors(shape, kinds=("int",), dtypes=("f64", "f32"), grad=False)), "axes": axes,
            "k": draw(st.sampled_from([1, 2, 4])), "mode": draw(st.sampled_from(gen.REPLICATING + ("zeros",))), "pick": draw(st.integers(0, 1000)),
            "amount": draw(st.sampled_from([0.5, 1, -2]))}


def run_exact(c):
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    b, _ = padders.filt(a, axes, [[1.0 / c["k"]] * c["k"]] * len(axes), {"form": "str", "mode": c["mode"]})
    d = a.astype(np.float64) - b
    mags = np.unique(np.abs(d))
    thr = float(mags[c["pick"] % len(mags)])
    from torchimage.pooling import AvgPoolNd
    um = call(UnsharpMask, AvgPoolNd(c["k"]), c["amount"], thr, padder=c["mode"])
    want = a + c["amount"] * np.where(np.abs(d) < thr, 0.0, d)
    cmp.equal(call(um.forward, x, axes=c["axes"]), want, f"exact threshold {thr}", dtype=x.dtype)
    return thr > 0 and bool((np.abs(d) < thr).any()), [c["mode"], "k=%d" % c["k"]]


TESTS = [
    Test("exact", run_exact, strategy=exact(), quick=2500),
    Test("random", run_rand, strategy=rand(), quick=8000),
    Test("large", run_rand, strategy=rand(big=True), quick=600), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
    Test("constant", run_const, strategy=const(), quick=1500),
]
