"""P18 MS-SSIM"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.metrics import MS_SSIM, SSIM

from lib import cmp, gen, padders, pools, ref, ssimref
from lib.core import Test, Violation, call, rejects
from props import p17
from props.p16 import axes_form, axes_value

ID = "P18"
RULE = ("one case = one pair of images under one MS_SSIM configuration; non-trivial = the images differ and every per-scale score "
        "is known to better than 1e-3")
ASSUMPTIONS = ["kernels have more than one element in total when sample covariance is used", 
               "the reference carries an interval through the clamp and the powers; scores are compared with that interval"]

DEFAULT = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333]
WEIGHT = st.sampled_from([0.0448, 0.2856, 0.5, 1, 0.1333, 2, 0.25])


NEAR_ONE = {1: [[1.005], [0.996], [1.0]], 2: [[0.3, 0.7005], [0.5, 0.5], [0.25, 0.746]], 3: [[0.2, 0.3, 0.504], [0.5, 0.25, 0.25], [0.333, 0.333, 0.333]],
            4: [[0.0448, 0.2856, 0.3001, 0.3696], [0.25, 0.25, 0.25, 0.25], [0.1, 0.2, 0.3, 0.395]], 5: [DEFAULT, [0.2, 0.2, 0.2, 0.2, 0.2], [0.2, 0.2, 0.2, 0.2, 0.206]]}


def weight_lists(L):
    """any weights, and weights that sum to one or nearly so"""
    free = st.lists(WEIGHT, min_size=L, max_size=L)
    return st.one_of(free, free, st.sampled_from(NEAR_ONE[L]).map(list))


@st.composite
def rand(draw, long=False):
    L = draw(st.integers(4, 5)) if long else draw(st.integers(1, 3))
    weights = None if L == 5 and draw(st.booleans()) else draw(weight_lists(L))
    nc = draw(st.integers(1, 1 if long else 3 if L < 3 else 2))
    cf = draw(p17.config(nc, 2 if long else 3, True, positive=True))
    if cf["kind"] != "pool":
        cf = dict(cf, kind="pool", blur={"kind": "avg", "m": nc, "k": 2 if long else 3})
    sizes = pools.kernels_of(cf["blur"])
    if long:
        cf["blur"] = {"kind": "gauss", "m": nc, "k": 2, "sigma": 1.5, "order": 0}
        sizes = pools.kernels_of(cf["blur"])
        cf["sample"], cf["excl"] = True, False
    f = 2 ** (L - 1)
    dims = [f * len(k) + draw(st.integers(1, 5 if long else 4)) for k in sizes]
    if np.prod(dims) > 4000:
        dims = [f * len(k) + 1 for k in sizes]
    lead = draw(st.sampled_from([0, 1, 2, 2]))
    shape = [draw(st.integers(1, 3)) for _ in range(lead)] + dims
    content = list(range(lead, lead + nc))
    dflt = lead == 2 and draw(st.booleans())
    if not dflt:
        perm = list(draw(st.permutations(list(range(len(shape))))))
        shape, content = [shape[p] for p in perm], [perm.index(q) for q in content]
    kinds = ("unit", "unit", "normal")
    dt = draw(st.sampled_from(("f64", "f64", "f32")))
    x = draw(gen.tensors(shape, dtypes=(dt,), kinds=kinds))
    return {"x": x, "y": draw(gen.tensors(shape, dtypes=(dt,), kinds=kinds)), "rel": draw(st.sampled_from(("indep", "noise", "scaled"))),
            "content": content, "dflt": dflt, "reduce": draw(axes_form(len(shape))), "cf": cf, "weights": weights,
            "prod": draw(st.sampled_from((True, True, None, False))), "eps": draw(st.sampled_from([None, None, 1e-8, 1e-3, 0.5])),
            "tup": draw(st.booleans())}


def halve(a, axes):
    return ref.dense_corr(a, axes, [[0.5, 0.5]] * len(axes), [2] * len(axes))


def expect(c, a, b, content, eps_m):
    """interval (lo, hi) of the per-sample score with kept dims, and the largest score error"""
    cf, weights = c["cf"], c["weights"] or DEFAULT
    prod, eps = c["prod"] is not False, 1e-8 if c["eps"] is None else c["eps"]
    lo = hi = None
    worst = 0.0
    for j, w in enumerate(weights):
        (l, le, cs, ce), ks, pad = p17.ref_map(cf, a, b, content, eps_m)
        v, e = (cs, ce) if j < len(weights) - 1 else ssimref.product(l, le, cs, ce)
        v, e = (ssimref.crop(q, content, ks, pad, cf["crop"]) for q in (v, e))
        n = float(np.prod([v.shape[q] for q in content]))
        e = e + eps_m * (16 + n / 2) * np.abs(v)  # a running sum may round this far away
        v, e = v.mean(axis=tuple(content), keepdims=True), e.mean(axis=tuple(content), keepdims=True)
        e = e + 1e-13
        worst = max(worst, float(np.max(e)))
        tl, th = v - e, v + e
        if prod:
            tl, th = np.maximum(tl, eps * (1 - 1e-6)) ** w, np.maximum(th, eps * (1 + 1e-6)) ** w
            lo, hi = (tl, th) if lo is None else (lo * tl, hi * th)
        else:
            tl, th = tl * w, th * w
            lo, hi = (tl, th) if lo is None else (lo + tl, hi + th)
        if j < len(weights) - 1:
            a, b = halve(a, content), halve(b, content)
    return lo, hi, worst


def build(c, cls=MS_SSIM):
    kw = {}
    if c["weights"] is not None:
        kw["weights"] = tuple(c["weights"]) if c["tup"] else list(c["weights"])
    if c["prod"] is not None:
        kw["use_prod"] = c["prod"]
    if c["eps"] is not None:
        kw["eps"] = c["eps"]
    if c.get("whole"):
        if c["cf"]["explicit"] or c["cf"]["kind"] == "mean":
            kw["blur"] = c["cf"]["kind"]
        return p17.build(cls, dict(c["cf"], kind="gaussian", explicit=False), **kw)
    cf = dict(c["cf"], explicit=False)
    bk = {"count_include_pad": False} if cf["excl"] else {}
    kw["blur"] = pools.build(cf["blur"], cf["stride"], padders.build(cf["own"]), **bk)
    kw["padder"] = padders.build(cf["pad"])
    if cf["K"]:
        kw.update(K1=cf["K"][0], K2=cf["K"][1])
    return cls(use_sample_covariance=cf["sample"], crop_border=cf["crop"], **kw)


def run_rand(c):
    x, a, y, b = p17.pair(c)
    nd = a.ndim
    content = gen.norm_axes(c["content"], nd)
    arg, red = axes_value(c["reduce"], nd)
    kw = {}
    if c["reduce"]["k"] == "omit":
        red = list(range(1, nd))
    else:
        kw["reduce_axes"] = arg
    if not c["dflt"]:
        kw["content_axes"] = c["content"]
    m = call(build, c)
    got = call(m.forward, x, y, **kw)
    lo, hi, worst = expect(c, a.astype(np.float64), b.astype(np.float64), content, cmp.EPS[x.dtype])
    lo_full = lo.size
    lo, hi = lo.mean(axis=tuple(red)), hi.mean(axis=tuple(red))
    what = f"MS_SSIM weights={c['weights']} prod={c['prod']} content={c['content']} reduce={arg!r} {padders.label(c['cf']['pad'])}"
    cmp.shape_is(got, lo.shape, what)
    cmp.same_dtype(got, x.dtype, what)
    eps = cmp.EPS[x.dtype]
    if np.isfinite(worst):
        g = got.detach().numpy().astype(np.float64)
        slack = (64 + lo_full / max(1, lo.size)) * eps * (np.abs(lo) + np.abs(hi)) + 1e-30
        cmp.margin(np.maximum(g - hi, lo - g) + (hi - lo) / 2, slack + (hi - lo) / 2, "interval " + what)
        bad = ~((g >= lo - slack) & (g <= hi + slack))
        if np.any(bad):
            i = tuple(int(q) for q in np.argwhere(np.asarray(bad))[0]) if np.ndim(bad) else ()
            raise Violation(f"{what}: score at {i} is {g[i]!r}, expected within [{lo[i]!r}, {hi[i]!r}]")
        back = call(m.forward, y, x, **kw).detach().numpy().astype(np.float64)
        cmp.is_true(bool(np.all((back >= lo - slack) & (back <= hi + slack))), what + ": not symmetric")
    return bool(np.any(a != b)) and worst < 1e-3, [
        "L=%d" % len(c["weights"] or DEFAULT), "prod" if c["prod"] is not False else "sum", padders.label(c["cf"]["pad"]),
        "content=%d" % len(content), "default" if c["dflt"] else "axes", "reduce=" + c["reduce"]["k"],
        "wide" if not np.isfinite(worst) or worst >= 1e-3 else "tight"]


@st.composite
def huge(draw):
    """few levels on large images, many samples or channels"""
    L, nc = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    k = draw(st.sampled_from((2, 3, 5, 9)))
    bl = draw(st.sampled_from(({"kind": "gauss", "m": nc, "k": k, "sigma": 1.5, "order": 0}, {"kind": "avg", "m": nc, "k": k})))
    cf = {"kind": "pool", "blur": bl, "pad": draw(st.sampled_from((None, {"form": "str", "mode": "reflect"}, {"form": "str", "mode": "symmetric"}))), "own": None,
          "excl": False, "sample": draw(st.booleans()), "crop": draw(st.booleans()), "K": draw(st.sampled_from([None, [0.2, 0.5]])), "stride": None, "explicit": False}
    low = 2 ** (L - 1) * k + 1
    dims = list(draw(gen.huge_shapes(nc, nc, low, 16000)))
    lead = list(draw(gen.huge_shapes(2, 2, 1, max(1, 24000 // int(np.prod(dims))))))
    shape = lead + dims
    dt = draw(st.sampled_from(("f64", "f64", "f32")))
    fill = lambda: {"shape": shape, "dtype": dt, "fill": {"k": "unit", "s": draw(gen.SEEDS)}, "layout": "c"}
    return {"x": fill(), "y": fill(), "rel": draw(st.sampled_from(("noise", "scaled", "indep"))), "content": list(range(2, 2 + nc)), "dflt": draw(st.booleans()),
            "reduce": draw(axes_form(2 + nc)), "cf": cf, "weights": draw(weight_lists(L)),
            "prod": draw(st.sampled_from((None, None, False))), "eps": None, "tup": draw(st.booleans())}


@st.composite
def defaults(draw):
    """constructor defaults: 5 scales, blur of size 11, images just above the documented size"""
    nc = draw(st.sampled_from((1, 1, 2)))
    kind = draw(st.sampled_from(("gaussian", "gaussian", "mean")))
    bl = {"kind": "gauss", "m": nc, "k": 11, "sigma": 1.5, "order": 0} if kind == "gaussian" else {"kind": "avg", "m": nc, "k": 11}
    cf = {"kind": kind, "blur": bl, "pad": draw(st.sampled_from((None, None, {"form": "str", "mode": "reflect"}, {"form": "str", "mode": "zeros"}))),
          "own": None, "excl": False, "sample": draw(st.sampled_from((True, True, False))), "crop": draw(st.sampled_from((True, True, False))),
          "K": draw(st.sampled_from([None, None, [0.2, 0.5]])), "stride": None, "explicit": draw(st.booleans())}
    lead = 2 if nc == 2 else draw(st.integers(1, 2))
    shape = [draw(st.integers(1, 2)) for _ in range(lead)] + [177 + draw(st.integers(0, 20)) for _ in range(nc)]
    dt = draw(st.sampled_from(("f64", "f64", "f32")))
    fill = lambda: {"shape": shape, "dtype": dt, "fill": {"k": "unit", "s": draw(gen.SEEDS)}, "layout": "c"}
    return {"x": fill(), "y": fill(), "rel": draw(st.sampled_from(("noise", "scaled", "indep"))), "content": list(range(lead, lead + nc)),
            "dflt": lead == 2, "reduce": {"k": "omit", "v": None} if lead == 2 else {"k": "none", "v": None}, "cf": cf, "weights": None,
            "prod": draw(st.sampled_from((None, None, False))), "eps": None, "tup": False, "whole": True}


@st.composite
def limits(draw):
    L = draw(st.integers(1, 4))
    k = draw(st.integers(2, 4))
    return {"L": L, "k": k, "under": draw(st.integers(0, 3)), "ax": draw(st.integers(0, 1)), "nc": draw(st.integers(1, 2)), "s": draw(gen.SEEDS),
            "w": draw(st.lists(WEIGHT, min_size=L, max_size=L)), "pad": draw(st.sampled_from((None, "reflect", "symmetric"))),
            "kind": draw(st.sampled_from(("unit", "normal", "int")))}


def run_limits(c):
    from torchimage.pooling import AvgPoolNd, GaussianPoolNd
    f = 2 ** (c["L"] - 1)
    nc = c["nc"]
    mk = lambda: MS_SSIM(weights=c["w"], blur=AvgPoolNd(c["k"]) if c["s"] % 2 else GaussianPoolNd(c["k"], 1.5), padder=c["pad"])
    ok = [2, 1] + [f * c["k"] + 1] * nc
    x = torch.from_numpy(gen.values(ok, "f64", {"k": c["kind"], "s": c["s"]}))
    # identical images score 1 at the smallest accepted size
    cmp.close(call(mk().forward, x, x.clone()), np.ones(2), f"identical images {ok}", ulp=0, atol=1e-8)
    # one weight: SSIM ** w (per-sample, per-channel before the average)
    if c["L"] == 1:
        bl = AvgPoolNd(c["k"]) if c["s"] % 2 else GaussianPoolNd(c["k"], 1.5)
        y = x * 0.8 + 0.1 * torch.flip(x, [-1])
        s = call(SSIM(bl, padder=c["pad"]).forward, x, y, content_axes=list(range(2, 2 + nc)), reduce_axes=list(range(2, 2 + nc)))
        want = np.maximum(s.numpy(), 1e-8) ** c["w"][0]
        cmp.close(call(mk().forward, x, y), want.mean(axis=1), "single weight equals SSIM ** w", ulp=4096, atol=1e-9)
    # too small along one content axis
    small = list(ok)
    small[2 + c["ax"] % nc] = max(1, f * c["k"] - c["under"])
    z = torch.ones(small, dtype=torch.float64)
    rejects(mk().forward, z, z, what=f"MS_SSIM of {small} with kernel {c['k']} and {c['L']} levels")
    rejects(mk().forward, x, x[:1], what="MS_SSIM of different shapes")
    return True, ["L=%d" % c["L"], "pad=%s" % c["pad"]]


TESTS = [
    Test("random", run_rand, strategy=rand(), quick=3500),
    Test("levels", run_rand, strategy=rand(long=True), quick=500),
    Test("defaults", run_rand, strategy=defaults(), quick=160),
    Test("huge", run_rand, strategy=huge(), quick=80),
    Test("limits", run_limits, strategy=limits(), quick=1500),
]
