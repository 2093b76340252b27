"""P29 history independence"""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.cfa import BayerConv2d, demosaic

from torchimage.contrib.edge_loss import GaussianEdgeLoss, WeightedSum
from torchimage.filtering import Laplace, LaplacianOfGaussian, UnsharpMask
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd, GaussianPoolNd

from lib import edges, gen, iso, padders, pools
from lib.core import Test, Violation

ID = "P29"
RULE = ("one case = a history of 2-7 calls over 1-3 modules, some sharing one padder, run in one forked process; every result is compared "
        "with that of freshly built objects in a forked process of their own; non-trivial = at least two calls succeed and they differ in "
        "shape, axes, dtype or module")
ASSUMPTIONS = ["a padder shared with a module is not called directly itself (its widths are documented to be overwritten)",
               "modules holding per-axis parameters are called with that many axes"]

KINDS = ("pool", "pool", "pool", "avgx", "avgx", "edge", "edge", "laplace", "log", "unsharp", "ssim", "ssim", "msssim", "mse", "psnr", "padder", "eloss", "bayer", "demosaic")
TWO = ("ssim", "msssim", "mse", "psnr", "eloss")


@st.composite
def module(draw, shared):
    kind = draw(st.sampled_from(KINDS))
    m = {"kind": kind, "m": draw(st.sampled_from([0, 0, 0, 2])), "share": shared is not None and draw(st.integers(0, 3)) > 0}
    M = m["m"]
    if kind in ("edge", "laplace", "log", "eloss", "bayer", "demosaic", "mse", "psnr"):
        m["m"] = M = 0
    if shared is not None and shared["m"] > 1 and M != 2:
        m["share"] = False
    own = lambda: draw(padders.padders(M or 1, none=False, lists=bool(M)))
    m["pad"] = own()
    if kind == "pool":
        m["pool"] = draw(pools.pools(M or 1, 4, scalar=True))
        if not M:
            m["pool"] = scalarise(m["pool"])
        m["stride"] = draw(st.one_of(st.none(), st.integers(1, 3))) if not M else draw(gen.strides(2, 3))
        m["nopad"] = draw(st.integers(0, 3)) == 0
        m["filter"] = draw(st.booleans())
    elif kind == "avgx":
        m["k"] = draw(st.integers(1, 4)) if not M else draw(st.lists(st.integers(1, 4), min_size=2, max_size=2))
        m["stride"] = draw(st.one_of(st.none(), st.integers(1, 3)))
        m["pad"] = {"form": "padder", "mode": "zeros", "m": 1, "w": None}
        m["share"] = m["share"] and shared["mode"] == "zeros"
        m["nopad"] = draw(st.integers(0, 3)) == 0
    elif kind == "edge":
        m["f"] = draw(edges.filters(n_smooth=None))
        m["f"]["dflt"] = False
        m["what"] = draw(st.sampled_from(("component", "magnitude", "all")))
    elif kind == "log":
        m["k"], m["s"] = draw(st.integers(1, 5)), draw(st.sampled_from([0.8, 1.5]))
    elif kind in ("unsharp", "ssim"):
        m["k"] = draw(st.integers(2, 4)) if not M else draw(st.lists(st.integers(2, 4), min_size=2, max_size=2))
        m["gauss"], m["sample"], m["crop"] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
        m["thr"] = draw(st.sampled_from([0, 0, 0.2345]))
        m["nopad"] = kind == "ssim" and draw(st.integers(0, 3)) == 0
    elif kind == "msssim":
        m["k"], m["sample"], m["crop"] = 2, draw(st.booleans()), draw(st.booleans())
        m["w"] = draw(st.lists(st.sampled_from([0.5, 1.0]), min_size=1, max_size=2))
        m["nopad"] = draw(st.booleans())
    elif kind in ("mse", "psnr"):
        m["red"] = draw(st.sampled_from(("mean", "sum")))
    elif kind == "padder":
        m["w"] = [[draw(st.integers(0, 4)), draw(st.integers(0, 4))] for _ in range(M or 1)]
        m["share"] = False
    elif kind == "eloss":
        m["k"], m["s"], m["cls"] = draw(st.integers(2, 5)), draw(st.sampled_from([0.8, 1.5])), draw(st.integers(0, 1))
    elif kind == "bayer":
        m["k"], m["ci"], m["co"], m["s"] = draw(st.sampled_from([1, 3, 5])), 1, draw(st.integers(1, 2)), draw(gen.SEEDS)
    return m


def scalarise(p):
    """per-axis lists of length one -> the item itself, so that any number of axes is accepted"""
    p = dict(p)
    for k in ("k", "sigma", "order"):
        if isinstance(p.get(k), list):
            p[k] = p[k][0]
    if p["kind"] == "sep" and p["kernel"] and isinstance(p["kernel"][0], list):
        p["kernel"] = p["kernel"][0]
    return p


@st.composite
def one_call(draw, mods, prev):
    i = draw(st.integers(0, len(mods) - 1))
    m = mods[i]
    kind = m["kind"]
    if kind == "bayer" or kind == "demosaic":
        shape = draw(st.sampled_from([[], [1], [2]])) + [1, 2 * draw(st.integers(2, 4)), 2 * draw(st.integers(2, 4))]
        axes = []
    elif kind == "eloss":
        shape, axes = [draw(st.integers(1, 2)), draw(st.integers(1, 2)), draw(st.integers(1, 6)), draw(st.integers(1, 6))], [2, 3]
    else:
        need = 2 if m["m"] == 2 or kind in ("edge", "laplace", "log") else 1
        shape = draw(gen.shapes(need, 4, 1 if kind != "msssim" else 5, 7, 300 if kind != "msssim" else 700))
        if draw(st.integers(0, 5)) == 0:
            shape[draw(st.integers(0, len(shape) - 1))] += draw(st.integers(20, 70))
        if prev and prev[-1]["m"] == i and draw(st.booleans()):
            shape = list(prev[-1]["shape"])
        elif prev and len(prev[-1]["shape"]) >= need and kind != "msssim" and draw(st.integers(0, 3)) == 0:
            shape = list(prev[-1]["shape"])
        hi = 2 if m["m"] == 2 else min(3, len(shape))
        axes = draw(gen.axes_of(len(shape), 2 if m["m"] == 2 else need, hi))
        if prev and draw(st.integers(0, 2)) == 0 and prev[-1]["axes"] and prev[-1]["m"] == i:
            if all(-len(shape) <= a < len(shape) for a in prev[-1]["axes"]) and len({a % len(shape) for a in prev[-1]["axes"]}) == len(prev[-1]["axes"]):
                axes = list(prev[-1]["axes"])
    return {"m": i, "shape": shape, "axes": axes, "dt": draw(st.sampled_from(("f64", "f64", "f32"))) if kind != "demosaic" else "f32", "s": draw(gen.SEEDS),
            "grad": draw(st.integers(0, 4)) == 0, "al": draw(st.sampled_from(("RGGB", "BGGR", "GRBG", "GBRG"))),
            "bad": draw(st.integers(0, 15)) == 11, "red": draw(gen.axes_of(len(shape), 1)), "layout": draw(gen.layouts(len(shape), expand=False))}


@st.composite
def rand(draw):
    shared = draw(padders.padders(2, forms=("padder",), lists=False)) if draw(st.integers(0, 3)) else None
    if shared is not None:
        shared["m"] = 1
        if draw(st.integers(0, 3)) == 0:
            shared["mode"] = "zeros"
        shared["w"] = draw(st.sampled_from([None, 0, 3]))
    mods = [draw(module(shared)) for _ in range(draw(st.sampled_from((2, 3, 1))))]
    calls = []
    for _ in range(draw(st.sampled_from((4, 3, 5, 6, 2, 7)))):
        q = draw(one_call(mods, calls))
        q["refilter"] = mods[q["m"]]["kind"] in ("pool", "avgx") and not mods[q["m"]].get("nopad") and draw(st.integers(0, 3 if mods[q["m"]]["kind"] == "pool" else 1)) == 0
        same = [p for p in calls if p["m"] == q["m"]]
        if same and draw(st.booleans() if q["refilter"] else st.integers(0, 4).map(lambda v: v == 0)):
            q.update({k: same[-1][k] for k in ("shape", "axes", "dt", "red", "bad")})
            q["layout"] = "c"
        calls.append(q)
    return {"shared": shared, "mods": mods, "calls": calls}


def make_module(m, shared):
    kind = m["kind"]
    pad = None if m.get("nopad") else shared if m["share"] else padders.build(m["pad"])
    if kind == "pool":
        f = pools.build(m["pool"], copy.copy(m["stride"]), pad)
        return f.to_filter() if m["filter"] and pad is not None else f
    if kind == "avgx":
        return AvgPoolNd(copy.copy(m["k"]), m["stride"], same_padder=pad, count_include_pad=False)
    if kind == "edge":
        return edges.build(m["f"], pad)
    if kind == "laplace":
        return Laplace(same_padder=pad)
    if kind == "log":
        return LaplacianOfGaussian(m["k"], m["s"], same_padder=pad)
    blur = lambda: GaussianPoolNd(m["k"], 1.5) if m["gauss"] else AvgPoolNd(m["k"])
    if kind == "unsharp":
        return UnsharpMask(blur(), 0.7, m["thr"], padder=pad)
    if kind == "ssim":
        return SSIM(blur(), padder=pad, use_sample_covariance=m["sample"], crop_border=m["crop"])
    if kind == "msssim":
        return MS_SSIM(weights=list(m["w"]), blur=AvgPoolNd(m["k"]), padder=pad, use_sample_covariance=m["sample"], crop_border=m["crop"])
    if kind == "mse":
        return MSE(reduction=m["red"])
    if kind == "psnr":
        return PSNR(reduction=m["red"])
    if kind == "padder":
        if m["m"] != 2:
            w = tuple(m["w"][0])
        else:
            w = [tuple(v) for v in m["w"]]
        p = padders.build(dict(m["pad"], form="padder", w=None))
        return Padder(pad_width=w, mode=p.mode, constant_values=p.constant_values, end_values=p.end_values, stat_length=p.stat_length)
    if kind == "eloss":
        return (GaussianEdgeLoss, WeightedSum)[m["cls"]](m["k"], m["s"], 1)
    if kind == "bayer":
        f = BayerConv2d(m["ci"], m["co"], m["k"], True).to(torch.float64)
        for j, p in enumerate(f.parameters()):
            p.data.copy_(torch.from_numpy(gen.values(list(p.shape), "f64", {"k": "normal", "s": m["s"] + j})))
        return f
    return demosaic


def do_call(f, m, c):
    """-> ("ok", [arrays]) or ("raised", type)"""
    kind = m["kind"]
    a = gen.values(c["shape"], c["dt"], {"k": "unit" if kind in TWO else "normal", "s": c["s"]})
    x = gen.tensor_of(a, c["layout"], c["grad"])
    y = torch.from_numpy(gen.values(c["shape"], c["dt"], {"k": "unit", "s": c["s"] + 1}))
    axes = list(c["axes"])
    if c["bad"] and axes:
        axes[0] = len(c["shape"]) + 1
    try:
        if kind in ("pool", "avgx", "laplace", "log", "unsharp", "padder"):
            r = f.forward(x, axes=axes)
        elif kind == "edge":
            if m["what"] == "component":
                r = f.component(x, axes[0], axes[1:])
            elif m["what"] == "all":
                r = f.all_components(x, axes=axes)
            else:
                r = f.magnitude(x, axes=axes, epsilon=0.1)
        elif kind in ("mse", "psnr"):
            r = f.forward(x, y, reduce_axes=axes)
        elif kind == "ssim":
            r = f.forward(x, y, content_axes=axes, reduce_axes=c["red"], full=True)
        elif kind == "msssim":
            r = f.forward(x, y, content_axes=axes, reduce_axes=c["red"])
        elif kind == "eloss":
            r = f.forward(x, y)
        elif kind == "bayer":
            r = f.forward(x.to(torch.float64), c["al"])
        else:
            r = f(x, c["al"])
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200]), []
    r = list(r) if isinstance(r, (list, tuple)) else [r]
    return ("ok", [t.detach().numpy().copy() for t in r]), r


def history(c):
    sh = padders.build(c["shared"]) if c["shared"] is not None else None
    mods = [make_module(m, sh) for m in c["mods"]]
    out, kept = [], []
    for q in c["calls"]:
        if q.get("refilter"):  # becomes a filter from this call on
            mods[q["m"]].to_filter()
        res, live = do_call(mods[q["m"]], c["mods"][q["m"]], q)
        out.append(res)
        kept.append(live)
    # the results handed out earlier still are what they were
    return out, [i for i, (res, live) in enumerate(zip(out, kept)) if res[0] == "ok"
                 and not all(np.array_equal(u, t.detach().numpy(), equal_nan=True) for u, t in zip(res[1], live))]


def fresh(c, i):
    q = c["calls"][i]
    m = c["mods"][q["m"]]
    sh = padders.build(c["shared"]) if c["shared"] is not None and m["share"] else None
    f = make_module(m, sh)
    if any(p.get("refilter") for p in c["calls"][:i + 1] if p["m"] == q["m"]):
        f.to_filter()
    return do_call(f, m, q)[0]


def unwrap(r, what):
    if r[0] != "ok":
        raise Violation(f"{what}: the process {'did not finish' if r[0] == 'timeout' else 'died'} ({r[1]})")
    return r[1]


def run_rand(c):
    hist, spoilt = unwrap(iso.run(lambda: history(c)), "history")
    for i in spoilt:
        raise Violation(f"the result of call {i} ({c['mods'][c['calls'][i]['m']]['kind']}, shape {c['calls'][i]['shape']}, axes {c['calls'][i]['axes']}) was overwritten by a later call")
    good = []
    for i, h in enumerate(hist):
        q = c["calls"][i]
        m = c["mods"][q["m"]]
        f = unwrap(iso.run(lambda: fresh(c, i)), f"call {i} on fresh objects")
        what = f"call {i} ({m['kind']}{' sharing the padder' if m['share'] else ''}, shape {q['shape']}, axes {q['axes']}, {q['dt']})"
        if h[0] != f[0]:
            raise Violation(f"{what}: in the history {h[0]} {h[1:] if h[0] == 'raised' else ''}, on fresh objects {f[0]} {f[1:] if f[0] == 'raised' else ''}")
        if h[0] == "raised":
            continue
        good.append(i)
        if len(h[1]) != len(f[1]):
            raise Violation(f"{what}: {len(h[1])} results in the history, {len(f[1])} on fresh objects")
        for u, v in zip(h[1], f[1]):
            if u.shape != v.shape or u.dtype != v.dtype:
                raise Violation(f"{what}: {u.dtype}{u.shape} in the history, {v.dtype}{v.shape} on fresh objects")
            if np.array_equal(u, v, equal_nan=True):
                continue
            big = max([1.0] + [float(np.nanmax(np.abs(v[np.isfinite(v)]))) for v in (v,) if np.isfinite(v).any()])
            eps = 2.3e-16 if v.dtype == np.float64 else 1.2e-7
            with np.errstate(invalid="ignore"):
                ok = (np.abs(u - v) <= 64 * eps * big) | (u == v) | (np.isnan(u) & np.isnan(v))
            if not ok.all():
                k = tuple(int(j) for j in np.argwhere(~ok)[0])
                raise Violation(f"{what}: {u[k]!r} at {k} in the history, {v[k]!r} on fresh objects")
    sig = {(c["calls"][i]["m"], tuple(c["calls"][i]["shape"]), tuple(c["calls"][i]["axes"]), c["calls"][i]["dt"]) for i in good}
    shares = sum(m["share"] for m in c["mods"])
    return len(sig) >= 2, ["calls=%d" % len(hist), "ok=%d" % len(good), "sharing=%d" % shares] + sorted({"kind=" + c["mods"][c["calls"][i]["m"]]["kind"] for i in good})


TESTS = [Test("history", run_rand, strategy=rand(), quick=1200)]
