"""P17 SSIM"""
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.metrics import SSIM

from lib import cmp, gen, padders, pools, ssimref
from lib.core import Test, Violation, call, rejects
from props.p16 import axes_form, axes_value

ID = "P17"
RULE = ("one case = one pair of images under one SSIM configuration; non-trivial = the images differ, the map is not constant and "
        "the error bound of the comparison is below 1e-3 at every compared pixel")
ASSUMPTIONS = ["kernels have more than one element in total when sample covariance is used", 
               "map values whose denominators vanish to rounding are not compared",
               "the bound |SSIM| <= 1 is checked for float64, unit-sum nonnegative blurs and value-replicating or no padding"]


@st.composite
def config(draw, m, kmax, none_ok, positive=True, modes=gen.SAME_MODES):
    """blur + padding for m content axes; kmax bounds kernels when there is no padder"""
    pad = draw(padders.padders(m, modes, none=none_ok))
    top = kmax if pad is None else 6
    kind = draw(st.sampled_from(("pool", "pool", "pool", "gaussian", "mean")))
    if kind != "pool" and (pad is not None or kmax >= 11):
        bl = {"kind": "gauss", "m": m, "k": 11, "sigma": 1.5, "order": 0} if kind == "gaussian" else {"kind": "avg", "m": m, "k": 11}
    else:
        kind = "pool"
        bl = draw(pools.pools(m, top, orders=False, weights="positive" if positive else "any", empty=False))
    excl = kind == "pool" and bl["kind"] == "avg" and draw(st.integers(0, 2)) == 0
    if excl and pad is not None:
        pad = {"form": "str", "mode": "zeros"}
    own = draw(padders.padders(m, modes, none=True)) if kind == "pool" and pad is not None and draw(st.booleans()) else None
    ones = int(np.prod([len(k) for k in pools.kernels_of(bl)])) == 1
    return {"kind": kind, "blur": bl, "pad": pad, "own": own, "excl": excl, "sample": False if ones else draw(st.sampled_from((True, True, False))),
            "crop": draw(st.sampled_from((True, True, False))), "K": draw(st.sampled_from([None, None, [0.01, 0.03], [0.5, 0.2], [2.55, 7.65]])),
            "stride": draw(st.one_of(st.none(), st.integers(1, 3))), "explicit": draw(st.booleans())}


def build(cls, cf, padder=0, **extra):
    kw = dict(extra)
    if cf["K"]:
        kw.update(K1=cf["K"][0], K2=cf["K"][1])
    if cf["explicit"] or not cf["sample"]:
        kw["use_sample_covariance"] = cf["sample"]
    if cf["explicit"] or not cf["crop"]:
        kw["crop_border"] = cf["crop"]
    pd = padders.build(cf["pad"]) if padder == 0 else padder
    if cf["kind"] == "gaussian" and not cf["explicit"]:
        return cls(padder=pd, **kw)
    if cf["kind"] != "pool":
        return cls(cf["kind"], padder=pd, **kw)
    bk = {"count_include_pad": False} if cf["excl"] else {}
    bl = pools.build(cf["blur"], cf["stride"], padders.build(cf["own"]), **bk)
    return cls(bl, padder=pd, **kw) if pd is not None or cf["explicit"] else cls(blur=bl, **kw)


def ref_map(cf, a, b, axes, eps):
    K1, K2 = cf["K"] or (0.01, 0.03)
    pad = cf["pad"] or cf["own"]
    ks = pools.kernels_of(cf["blur"])
    return ssimref.terms(a, b, axes, ks, pad, K1, K2, cf["sample"], eps, cf["excl"]), ks, pad


@st.composite
def rand(draw, large=False):
    big = draw(st.integers(0, 5)) == 0 or large
    shape = draw(gen.huge_shapes(1, 3, 5, 20000)) if large == "huge" else draw(gen.shapes(1, 3, 5, 90, 8000)) if large else draw(gen.shapes(1, 3, 11, 14, 2500)) if big else draw(gen.shapes(1, 4, 1, 8, 500))
    nd = len(shape)
    dflt = nd > 2 and draw(st.integers(0, 2)) == 0
    content = list(range(2, nd)) if dflt else draw(gen.axes_of(nd, 1, 3))
    kmax = min(17 if large else 11 if big else 6, min(shape[q] for q in content))
    cf = draw(config(len(content), kmax, True, positive=draw(st.integers(0, 4)) > 0))
    kinds = ("unit", "unit", "normal", "int")
    x = draw(gen.tensors(shape, kinds=kinds))
    rel = draw(st.sampled_from(("indep", "noise", "scaled", "close")))
    y = draw(gen.tensors(shape, dtypes=(x["dtype"],), kinds=kinds))
    return {"x": x, "y": y, "rel": rel, "content": content, "dflt": dflt, "reduce": draw(axes_form(nd)), "cf": cf, "form": draw(gen.AXFORM)}


def pair(c):
    x, a = gen.make(c["x"])
    y, b = gen.make(c["y"])
    if c["rel"] == "close":
        d = 10.0 ** -(2 + c["y"]["fill"]["s"] % 7)
        b = (a + d * b).astype(a.dtype)
        y = gen.tensor_of(b)
    elif c["rel"] != "indep":
        b = (a + 0.1 * b if c["rel"] == "noise" else a * 0.7 + 0.05).astype(a.dtype)
        y = gen.tensor_of(b, c["y"].get("layout", "c") if not c["y"].get("layout", "c").startswith("expand") else "c")
    return x, a, y, b


def run_rand(c):
    x, a, y, b = pair(c)
    nd, cf = a.ndim, c["cf"]
    content = gen.norm_axes(c["content"], nd)
    arg, red = axes_value(c["reduce"], nd)
    kw = {}
    if c["reduce"]["k"] == "omit":
        red = list(range(1, nd))
    else:
        kw["reduce_axes"] = arg
    if not c["dflt"]:
        kw["content_axes"] = gen.axes_arg(c["content"], c["form"])
    s = call(build, SSIM, cf)
    out = call(s.forward, x, y, full=True, **kw)
    if not isinstance(out, tuple) or len(out) != 2:
        raise Violation(f"full=True returned {type(out).__name__}")
    score, full = out
    (l, le, cs, ce), ks, pad = ref_map(cf, a, b, content, cmp.EPS[x.dtype])
    want, err = ssimref.product(l, le, cs, ce)
    what = f"SSIM {cf['blur']['kind']} {padders.label(pad)} sample={cf['sample']} crop={cf['crop']} content={c['content']}"
    cmp.shape_is(full, want.shape, what + " map")
    cmp.same_dtype(full, x.dtype, what + " map")
    g = full.detach().numpy().astype(np.float64)
    good = err < 1e-2
    bad = good & ~(np.abs(g - want) <= err + 1e-12)
    cmp.margin(np.abs(g - want)[good], (err + 1e-12)[good], "map " + what)
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        raise Violation(f"{what}: map at {i} is {g[i]!r}, expected {want[i]!r} (bound {err[i]:.3g})")
    # the score is the mean of the map as returned, over the uncropped pixels
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cut = ssimref.crop(g, content, ks, pad, cf["crop"])
        wscore = cut.mean(axis=tuple(red))
    scale = float(np.max(np.abs(g))) if np.isfinite(g).all() else np.inf
    if np.isfinite(scale):
        many = 64 + cut.size / max(1, wscore.size) / 2  # a running sum may round this far away
        cmp.close(score, wscore, what + f" score over {arg!r}", dtype=x.dtype, scale=scale, ulp=many)
    plain = call(s.forward, y, x, **kw)
    if np.isfinite(scale) and good.all():
        tol = 2 * float(np.max(err)) + 1e-12
        cmp.close(plain, score.detach().numpy(), what + " symmetry", dtype=x.dtype, scale=scale, ulp=2 * many, atol=tol)
    cm = call(build(SSIM, cf).forward, y, x, full=True, **kw)[1].detach().numpy()
    if good.all():
        cmp.margin(np.abs(cm - g), 2 * err + 1e-12, "symmetry " + what)
        cmp.is_true(bool(np.all(np.abs(cm - g) <= 2 * err + 1e-12)), what + ": map is not symmetric")
    return bool(np.any(a != b)) and good.all() and float(np.max(err)) < 1e-3 and float(np.ptp(want)) > 1e-6, [
        cf["kind"], cf["blur"]["kind"], padders.label(pad), "crop" if cf["crop"] else "nocrop", "sample" if cf["sample"] else "pop",
        "content=%d" % len(content), "reduce=" + c["reduce"]["k"], c["rel"], "wellcond" if good.all() else "illcond", "excl" if cf["excl"] else "incl"]


@st.composite
def ident(draw):
    shape = draw(gen.shapes(1, 4, 2, 8, 500))
    content = draw(gen.axes_of(len(shape), 1, 3))
    cf = draw(config(len(content), min(6, min(shape[q] for q in content)), True, modes=gen.REPLICATING))
    cf["excl"] = False
    if cf["pad"] is not None and cf["pad"]["mode"] == "zeros":
        cf["pad"] = {"form": "str", "mode": "reflect"}
    kinds = ("unit", "normal", "int", "big")
    return {"x": draw(gen.tensors(shape, dtypes=("f64",), kinds=kinds)), "y": draw(gen.tensors(shape, dtypes=("f64",), kinds=kinds)),
            "rel": draw(st.sampled_from(("indep", "noise", "scaled", "close"))), "content": content, "cf": cf, "shape2": draw(gen.shapes(1, 4, 2, 8, 500))}


def run_ident(c):
    x, a, y, b = pair(c)
    s = call(build, SSIM, c["cf"])
    score, full = call(s.forward, x, torch.from_numpy(a.copy()), content_axes=c["content"], reduce_axes=None, full=True)
    content = gen.norm_axes(c["content"], a.ndim)

    def bound(p, q):
        e = ssimref.product(*ref_map(c["cf"], p, q, content, cmp.EPS[torch.float64])[0])[1]
        return float(np.max(e)) + 1e-12

    e = bound(a, a)
    cmp.close(full, np.ones(tuple(full.shape)), "SSIM map of identical images", ulp=0, atol=e)
    if full.numel() and torch.isfinite(score):
        cmp.close(score, 1.0, "SSIM of identical images", ulp=0, atol=e)
    _, full = call(s.forward, x, y, content_axes=c["content"], reduce_axes=None, full=True)
    m, e = float(full.detach().abs().max()), bound(a, b)
    cmp.is_true(m <= 1 + e, f"|SSIM| reached {m} with {padders.label(c['cf']['pad'])}")
    if c["shape2"] != list(a.shape):
        rejects(s.forward, x, torch.zeros(c["shape2"], dtype=torch.float64), content_axes=0, reduce_axes=None, what="SSIM of different shapes")
    rejects(s.forward, x, torch.zeros([1] + list(a.shape), dtype=torch.float64), content_axes=c["content"], reduce_axes=None,
            what="SSIM of broadcastable but different shapes")
    return bool(np.any(a != b)) and len(np.unique(a)) > 1, [padders.label(c["cf"]["pad"]), c["rel"], c["cf"]["kind"]]


TESTS = [
    Test("random", run_rand, strategy=rand(), quick=5000),
    Test("large", run_rand, strategy=rand(large=True), quick=300), Test("huge", run_rand, strategy=rand(large="huge"), quick=100),
    Test("identity", run_ident, strategy=ident(), quick=2500),
]
