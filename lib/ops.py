"""A registry of torchimage operations: JSON spec -> instance.

An instance is called with tensors and yields a list of (tensor, labels): labels names, for each
axis of the output, the input axis it corresponds to (or None when the output axes have no such
meaning).  Specs hold nonnegative axes; `amap` and `form` choose how they are written."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.contrib.edge_loss import GaussianEdgeLoss, WeightedDiv, WeightedMul, WeightedSum
from torchimage.cfa import BayerConv2d, BayerConv2dUnshuffle, demosaic, last_step_demosaic
from torchimage.cfa import utils as cu
from torchimage.filtering import Laplace, LaplacianOfGaussian, UnsharpMask
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.misc import describe, outer, poly1d, safe_power
from torchimage.padding import Padder
from torchimage.pooling.operator import any_conv_1d
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise, random_crop

from . import edges, gen, padders, pools, ref

FORMS = ("list", "tuple", "np", "neg", "mixed", "int", "slice", "none", "step", "over")


def form_axes(axes, nd, form):
    """The same axes written differently; None-able forms fall back to a list."""
    axes = list(axes)
    if form == "tuple":
        return tuple(axes)
    if form == "np":
        return np.array(axes, dtype=int)
    if form == "neg":
        return [a - nd for a in axes]
    if form == "mixed":
        return tuple(a - nd if i % 2 else a for i, a in enumerate(axes))
    if form == "int" and len(axes) == 1:
        return axes[0]
    if form == "slice" and axes == list(range(axes[0], axes[0] + len(axes))):
        return slice(axes[0], None) if axes[-1] == nd - 1 else slice(axes[0], axes[-1] + 1)
    if form == "step":  # a slice with a step, which may run backwards
        step = axes[1] - axes[0] if len(axes) > 1 else nd
        if step and axes == list(range(axes[0], axes[0] + step * len(axes), step)):
            end = axes[-1] + step
            return slice(axes[0], end if 0 <= end < nd else None, step)
    if form == "over" and axes == list(range(axes[0], axes[0] + len(axes))) and (axes[0] == 0 or axes[-1] == nd - 1):
        # a slice whose ends lie beyond the axes
        far = 1 + sum(axes) % 3
        return slice(axes[0] if axes[0] else -nd - far, nd + far if axes[-1] == nd - 1 else axes[-1] + 1)
    if form == "none" and axes == list(range(nd)):
        return None
    return axes


class Inst:
    """fn(tensors, A) -> list of (tensor, labels); A(axes) writes axes.

    With a module, fn receives it as its first argument (so that a copy can take its place)."""

    def __init__(self, fn, owned=(), mod=None):
        self.fn, self.owned, self.mod = fn, list(owned), mod
        self.passed = []  # axes arguments, and copies made before they were passed

    def __call__(self, tensors, amap=None, form="list"):
        nd = tensors[0].ndim
        self.passed = []

        def A(axes):
            v = form_axes([amap[a] if amap else a for a in axes], nd, form)
            self.passed.append((v, copy.deepcopy(v)))
            return v
        # labels are given in the numbering of the tensors passed
        m = (lambda axes: [amap[a] for a in axes]) if amap else list
        if self.mod is not None:
            return self.fn(self.mod, tensors, A, m, nd)
        return self.fn(tensors, A, m, nd)


OPS = {}


class Op:
    def __init__(self, name, strategy, build, axes=True, diff=True, linear=None, n=1):
        self.name, self.strategy, self.build, self.axes, self.diff, self.linear, self.n = name, strategy, build, axes, diff, linear, n
        OPS[name] = self


class Draw:
    """What the caller wants of tensor specs."""

    def __init__(self, draw, dtypes, layout, numel, long=False, wide=False):
        self.draw, self.dtypes, self.layout, self.numel, self.long = draw, dtypes, layout, numel, long
        self.wide = wide and draw(st.integers(0, 9)) == 0

    def __call__(self, s):
        return self.draw(s)

    def tensor(self, shape, dtype=None, kinds=("normal", "unit"), expand=True):
        dt = dtype or self.draw(st.sampled_from(self.dtypes))
        sp = {"shape": list(shape), "dtype": dt, "fill": self.draw(gen.fills(kinds if dt in gen.FLOATS else ("int",))), "layout": "c"}
        if self.layout:
            sp["layout"] = self.draw(gen.layouts(len(shape), expand=expand))
        return sp

    def shape(self, lo=1, hi=4, mn=1, mx=6):
        s = self.draw(gen.shapes(lo, hi, mn, mx, self.numel))
        if self.long:  # one axis longer than any kernel
            s[self.draw(st.integers(0, len(s) - 1))] = self.draw(st.integers(24, 40)) if not self.wide else self.draw(st.integers(150, 260))
        elif self.wide:
            i = self.draw(st.integers(0, len(s) - 1))
            s[i] = self.draw(st.one_of(st.integers(20, 80), st.integers(60, 400)))
            for j in range(len(s)):
                if j != i:
                    s[j] = max(mn, min(s[j], max(1, 2000 // s[i])))
        return s

    def kernel(self, default):
        """the largest kernel to draw"""
        return self.draw(st.sampled_from((9, 17, 40, 70))) if self.wide else default

    def half(self, lo, hi):
        """half of an even image side"""
        return self.draw(st.integers(lo, hi)) if not self.long else self.draw(st.one_of(st.integers(lo, hi), st.integers(12, 18)))

    def axes(self, nd, lo=1, hi=3):
        return gen.norm_axes(self.draw(gen.axes_of(nd, lo, hi)), nd)

    def pick(self, *v):
        return self.draw(st.sampled_from(v))


def strategy(names, dtypes=("f64", "f64", "f32"), layout=True, numel=150, long=False, wide=False):
    @st.composite
    def s(draw):
        name = draw(st.sampled_from(tuple(names)))
        d = Draw(draw, tuple(dtypes), layout, numel, long, wide)
        sp = OPS[name].strategy(d)
        sp["op"] = name
        return sp
    return s()


def steady(sp):
    """SSIM divides by differences of nearly equal numbers: in float64 only where results are compared across roundings."""
    if sp["op"] in ("ssim", "msssim"):
        for t in sp["x"]:
            t["dtype"] = "f64"
    return sp


def slack(sp):
    return 100.0 if sp["op"] in ("ssim", "msssim") else 1.0


def build(spec, padder=0):
    """padder: use this object as the same padder (padder-bearing ops only)."""
    return OPS[spec["op"]].build(spec) if padder == 0 else OPS[spec["op"]].build(spec, padder=padder)


def twist(sp):
    """the same operation with other numbers: constants, weights, sides, seeds"""
    def num(v, f):
        return [num(q, f) for q in v] if isinstance(v, list) else f(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v

    def walk(d):
        out = {}
        for k, v in d.items():
            if k in ("cv", "ev"):
                f = lambda q: q + 1.75
                v = dict(v, **{"pass": num(v["pass"], f), "each": num(v["each"], f)}) if isinstance(v, dict) else num(v, f)
            elif k in ("kernel", "edge", "smooth"):
                v = num(v, lambda q: q * 1.25)
            elif k in ("amount", "max", "clamp"):
                v = num(v, lambda q: q * 1.5)
            elif k in ("sigma", "es") or (k == "s" and isinstance(v, float)):
                v = num(v, lambda q: q * 1.25 + 0.125)
            elif k == "p" and isinstance(v, list):
                v = [q + 1 for q in v[::-1]]
            elif k == "al":
                v = ref.ALIGN[(ref.ALIGN.index(v) + 1) % 4]
            elif k in ("seed", "ws"):
                v = v + 1
            elif k == "w" and sp["op"] == "pad":
                v = [q[::-1] for q in v]
            elif isinstance(v, dict):
                v = walk(v)
            out[k] = v
        if "mode" in out and "cv" not in out and out.get("form") != "str":
            m = len(sp["axes"])
            if sp["op"] == "pad":
                out["cv"], out["ev"], out["sl"] = [[2.25, -1]] * m, [[-1.5, 3]] * m, [[2, 1]] * m
            elif out.get("form") == "padder":
                pair = lambda a, b: {"pass": [a, b], "each": [[a, b]] * out["m"], "k": "pair"}
                out["cv"], out["ev"], out["sl"] = pair(2.25, -1), pair(-1.5, 3), pair(2, 1)
        return out
    x = [dict(t, fill=dict(t["fill"], s=t["fill"]["s"] + 1)) for t in sp["x"]]
    return dict(copy.deepcopy(sp), cfg=walk(copy.deepcopy(sp["cfg"])), x=x)


def arrays(spec):
    return [gen.make(t)[1] for t in spec["x"]]


# ---------------------------------------------------------------- padding
def s_pad(d, modes=None):
    shape = d.shape()
    axes = d.axes(len(shape))
    m = len(axes)
    modes = modes or gen.VALUE_MODES
    many = m > 1 and d.pick(False, False, True)
    mode = [d.pick(*modes) for _ in range(m)] if many else d.pick(*modes)
    w = [[d(st.integers(0, 4)), d(st.integers(0, 4))] for _ in range(m)]
    if not many and d.pick(True, False):
        w = [w[0]] * m
    for i, md in enumerate(mode if many else [mode] * m):
        if md == "periodize" and w[i] == [0, 0]:
            w[i] = [1, 2]
    cfg = {"mode": mode, "w": w, "wl": d.pick("list", "np", "tuple"), "one": d.pick(False, False, True)}
    if d.pick(True, False):
        cfg["cv"], cfg["ev"] = [[d(gen.NUM), d(gen.NUM)] for _ in range(m)], [[d(gen.NUM), d(gen.NUM)] for _ in range(m)]
        cfg["sl"] = [[d(st.one_of(st.none(), st.integers(1, 6))), d(st.one_of(st.none(), st.integers(1, 6)))] for _ in range(m)]
    return {"x": [d.tensor(shape)], "axes": axes, "cfg": cfg}


def b_pad(sp):
    c = sp["cfg"]
    w = [list(v) for v in c["w"]]
    w = np.array(w, dtype=int) if c["wl"] == "np" else tuple(tuple(v) for v in w) if c["wl"] == "tuple" else w
    kw = {"pad_width": w, "mode": c["mode"] if isinstance(c["mode"], str) else list(c["mode"])}
    if "cv" in c:
        kw.update(constant_values=copy.deepcopy(c["cv"]), end_values=copy.deepcopy(c["ev"]), stat_length=copy.deepcopy(c["sl"]))
    p = Padder(**kw)

    def fn(p, t, A, m, nd):
        if c["one"]:  # one axis at a time
            x, axes = t[0], m(sp["axes"])
            for i in range(len(axes)):
                x = p.pad_axis(x, i - len(axes) if i % 2 else i, axes[i] - nd if len(axes) % 2 and 0 <= axes[i] < nd else axes[i])
            return [(x, list(range(nd)))]
        return [(p.forward(t[0], axes=A(sp["axes"])), list(range(nd)))]
    return Inst(fn, list(kw.values()), mod=p)


def pad_linear(mode, cfg=None):
    modes = mode if isinstance(mode, list) else [mode]
    zero = cfg is None or "cv" not in cfg
    return all(q in gen.LINEAR_MODES or (zero and q in ("constant", "linear_ramp")) for q in modes)


Op("pad", s_pad, b_pad, linear=lambda s: pad_linear(s["cfg"]["mode"], s["cfg"]))


# ---------------------------------------------------------------- pooling
def sp_linear(pad):
    return pad is None or pad_linear(pad["mode"], {"cv": 1} if "cv" in pad else {})


def s_pool(d):
    shape = d.shape()
    axes = d.axes(len(shape))
    m = len(axes)
    pad = d(padders.padders(m, none=True))
    kmax = d.kernel(5)
    kmax = kmax if pad is not None else min(kmax, min(shape[a] for a in axes))
    pool = d(pools.pools(m, kmax, kinds=("sep", "avg", "gauss") if kmax < 10 else ("avg", "gauss")))
    stride = d(gen.strides(m, 3))
    if d(st.integers(0, 11)) == 0:
        pool = nothing(d, m)
    cip = not (pool["kind"] == "avg" and (pad is None or pad["mode"] == "zeros") and d.pick(True, False))
    return {"x": [d.tensor(shape)], "axes": axes, "kmax": kmax, "cfg": {"pool": pool, "stride": stride, "pad": pad, "cip": cip}}


def nothing(d, m):
    """A pooling module that leaves every listed axis alone: its result is the very input."""
    return {"kind": "sep", "m": m, "kernel": [], "form": d.pick("list", "tuple")}


def b_pool(sp, padder=0):
    c = sp["cfg"]
    stride = copy.copy(c["stride"])
    kw = {} if c["cip"] else {"count_include_pad": False}
    pd = padders.build(c["pad"]) if padder == 0 else padder
    pool = c["pool"]
    owned = [stride]
    if pool["kind"] == "sep":
        arg = gen.kernel_arg(pool["kernel"], pool["form"])
        owned.append(arg)
        from torchimage.pooling import SeparablePoolNd
        f = SeparablePoolNd(arg, stride, same_padder=pd)
    else:
        pool = copy.deepcopy(pool)
        owned.append(pool)
        f = pools.build(pool, stride, pd, **kw)

    def fn(f, t, A, m, nd):
        return [(f.forward(t[0], axes=A(sp["axes"])), list(range(nd)))]
    return Inst(fn, owned, mod=f)


Op("pool", s_pool, b_pool, linear=lambda s: sp_linear(s["cfg"]["pad"]))


# ---------------------------------------------------------------- edges
def s_edge(d):
    shape = d.shape(2, 4)
    axes = d.axes(len(shape), 2, 3)
    f = d(edges.filters(n_smooth=len(axes) - 1))
    what = d.pick("component", "all", "magnitude", "horizontal", "vertical")
    if f["kind"] == "custom" and d.pick(True, False, False):
        f["edge"] = []
        if d.pick(True, False):
            f["smooth"], f["normalize"] = [], False
    if edges.per_axis(f) and what in ("horizontal", "vertical"):
        what = "all"
    cfg = {"f": f, "what": what, "p": d.pick(1, 2, 4), "first": 0}
    return {"x": [d.tensor(shape)], "axes": axes, "cfg": cfg}


def b_edge(sp, padder=0):
    c = sp["cfg"]
    f = edges.build(c["f"], padder)
    axes = sp["axes"]

    def fn(f, t, A, m, nd):
        lab = list(range(nd))
        x = t[0]
        if c["what"] == "component":
            return [(f.component(x, edge_axis=A(axes[:1]), smooth_axes=A(axes[1:])), lab)]
        if c["what"] == "all":
            return [(y, lab) for y in f.all_components(x, axes=A(axes))]
        if c["what"] == "magnitude":
            return [(f.magnitude(x, axes=A(axes), p=c["p"], epsilon=0.0 if c["p"] == 1 else 0.5), lab)]
        return [(getattr(f, c["what"])(x), lab)]
    return Inst(fn, mod=f)


Op("edge", s_edge, b_edge, linear=lambda s: sp_linear(s["cfg"]["f"]["pad"]) and (s["cfg"]["what"] != "magnitude" or s["cfg"]["p"] == 1))


def s_lap(d):
    shape = d.shape(2, 4)
    axes = d.axes(len(shape), 2, 3)
    return {"x": [d.tensor(shape)], "axes": axes, "cfg": {"pad": d(padders.padders(1, lists=False)), "log": d.pick(True, False),
                                                          "k": d(st.integers(1, 6)), "s": d.pick(0.5, 1, 1.4, 2.5)}}


def b_lap(sp, padder=0):
    c = sp["cfg"]
    pd = padders.build(c["pad"]) if padder == 0 else padder
    f = LaplacianOfGaussian(c["k"], c["s"], same_padder=pd) if c["log"] else Laplace(same_padder=pd)

    def fn(f, t, A, m, nd):
        return [(f.forward(t[0], axes=A(sp["axes"])), list(range(nd)))]
    return Inst(fn, mod=f)


Op("laplace", s_lap, b_lap, linear=lambda s: sp_linear(s["cfg"]["pad"]))


def s_unsharp(d):
    shape = d.shape()
    axes = d.axes(len(shape))
    m = len(axes)
    kmax = d.kernel(5)
    blur = nothing(d, m) if d(st.integers(0, 5)) == 0 else d(pools.pools(m, kmax, orders=False, kinds=("sep", "avg", "gauss") if kmax < 10 else ("avg", "gauss")))
    return {"x": [d.tensor(shape)], "axes": axes, "kmax": kmax, "cfg": {"pool": blur, "pad": d(padders.padders(m)),
                                                          "amount": d.pick(0.5, -1, 2.5), "thr": d.pick(0, 0, 0.1234567)}}


def b_unsharp(sp, padder=0):
    c = sp["cfg"]
    f = UnsharpMask(pools.build(c["pool"]), c["amount"], c["thr"], padder=padders.build(c["pad"]) if padder == 0 else padder)

    def fn(f, t, A, m, nd):
        return [(f.forward(t[0], axes=A(sp["axes"])), list(range(nd)))]
    return Inst(fn, mod=f)


Op("unsharp", s_unsharp, b_unsharp, linear=lambda s: sp_linear(s["cfg"]["pad"]) and s["cfg"]["thr"] == 0)


# ---------------------------------------------------------------- metrics
def kept(axes, nd):
    return [a for a in range(nd) if a not in axes]


def s_mse(d):
    shape = d.shape()
    axes = d.axes(len(shape), 1, 4)
    x = d.tensor(shape)
    return {"x": [x, d.tensor(shape, x["dtype"])], "axes": axes, "cfg": {"red": d.pick("mean", "sum", "none"), "psnr": d.pick(True, False),
                                                                        "max": d.pick(1, 255, 3.0, 65535), "eps": d.pick(0, 0.5)}}


def b_mse(sp):
    c = sp["cfg"]
    f = PSNR(c["max"], c["eps"], reduction=c["red"]) if c["psnr"] else MSE(reduction=c["red"])

    def fn(f, t, A, m, nd):
        y = f.forward(t[0], t[1], reduce_axes=A(sp["axes"]))
        return [(y, list(range(nd)) if c["red"] == "none" else kept(m(sp["axes"]), nd))]
    return Inst(fn, mod=f)


Op("mse", s_mse, b_mse, n=2)


def s_ssim(d):
    from props import p17
    shape = d.shape(1, 4, 2, 7)
    content = d.axes(len(shape), 1, 3)
    cf = d(p17.config(len(content), min(6, min(shape[q] for q in content)), True))
    if d(st.integers(0, 9)) == 0:  # a blur that returns its very input
        cf.update(kind="pool", blur=nothing(d, len(content)), excl=False, sample=False, own=None)
    x = d.tensor(shape, kinds=("unit", "normal"), expand=False)
    y = d.tensor(shape, x["dtype"], kinds=("unit", "normal"), expand=False)
    return {"x": [x, y], "axes": content, "cfg": {"cf": cf, "reduce": d.axes(len(shape), 1, 4)}}


def b_ssim(sp, padder=0):
    from props import p17
    c = sp["cfg"]
    f = p17.build(SSIM, c["cf"], padder)

    def fn(f, t, A, m, nd):
        s, full = f.forward(t[0], t[1], content_axes=A(sp["axes"]), reduce_axes=A(c["reduce"]), full=True)
        return [(s, kept(m(c["reduce"]), nd)), (full, list(range(nd)))]
    return Inst(fn, mod=f)


Op("ssim", s_ssim, b_ssim, n=2)


def s_msssim(d):
    L = d(st.integers(1, 3))
    k = d(st.integers(2, 3))
    nc = d(st.integers(1, 2 if L < 3 else 1))
    f = 2 ** (L - 1)
    dims = [f * k + d(st.integers(1, 3)) for _ in range(nc)]
    lead = [d(st.integers(1, 2)) for _ in range(d(st.integers(0, 2)))]
    shape = lead + dims
    perm = list(d(st.permutations(list(range(len(shape))))))
    content = [perm.index(len(lead) + i) for i in range(nc)]
    shape = [shape[p] for p in perm]
    x = d.tensor(shape, kinds=("unit",), expand=False)
    y = d.tensor(shape, x["dtype"], kinds=("unit",), expand=False)
    y = dict(y, mix=True)
    return {"x": [x, y], "axes": content, "cfg": {"k": k, "w": [d.pick(0.5, 1, 0.25, 0.1333) for _ in range(L)], "pad": d(padders.padders(nc, gen.REPLICATING, none=True)),
                                                  "prod": d.pick(True, False), "sample": d.pick(True, False), "crop": d.pick(True, False),
                                                  "reduce": d.axes(len(shape), 1, 4), "gauss": d.pick(True, False)}}


def b_msssim(sp, padder=0):
    from torchimage.pooling import AvgPoolNd, GaussianPoolNd
    c = sp["cfg"]
    w = list(c["w"])
    f = MS_SSIM(weights=w, use_prod=c["prod"], blur=GaussianPoolNd(c["k"], 1.5) if c["gauss"] else AvgPoolNd(c["k"]),
                padder=padders.build(c["pad"]) if padder == 0 else padder, use_sample_covariance=c["sample"], crop_border=c["crop"])

    def fn(f, t, A, m, nd):
        y = f.forward(t[0], t[1], content_axes=A(sp["axes"]), reduce_axes=A(c["reduce"]))
        return [(y, kept(m(c["reduce"]), nd))]
    return Inst(fn, [w], mod=f)


Op("msssim", s_msssim, b_msssim, n=2)


# ---------------------------------------------------------------- colour filter arrays
def s_bayer(d):
    lead = d.pick([], [1], [2], [2, 1])
    h, w = 2 * d.half(1, 3), 2 * d.half(1, 3)
    what = d.pick("1c4c", "4c1c", "rgb1c", "rgb4c", "down1c", "down4c")
    ch = {"1": [1, h, w], "4": [4, h // 2, w // 2], "r": [3, h, w], "d": [1, h, w] if what == "down1c" else [4, h // 2, w // 2]}[what[0]]
    return {"x": [d.tensor(lead + ch)], "axes": None, "cfg": {"what": what, "al": d.pick(*ref.ALIGN)}}


def b_bayer(sp):
    c = sp["cfg"]
    f = {"1c4c": cu.bayer_1c_to_4c, "4c1c": cu.bayer_4c_to_1c, "rgb1c": cu.rgb_to_1c_bayer, "rgb4c": cu.rgb_to_4c_bayer,
         "down1c": cu.downsample_1c_bayer_to_rgb, "down4c": cu.downsample_4c_bayer_to_rgb}[c["what"]]
    arg = () if c["what"] in ("1c4c", "4c1c") else (c["al"],)
    return Inst(lambda t, A, m, nd: [(f(t[0], *arg), None)])


Op("bayer", s_bayer, b_bayer, axes=False, linear=lambda s: True)


def s_bconv(d):
    k = d.pick(1, 3, 5)
    h, w = 2 * d.half(2, 4), 2 * d.half(2, 4)
    ci, co = d(st.integers(1, 3)), d(st.integers(1, 3))
    x = d.tensor(d.pick([], [1], [2]) + [ci, h, w])
    return {"x": [x], "axes": None, "cfg": {"k": k, "ci": ci, "co": co, "bias": d.pick(True, False), "al": d.pick(*ref.ALIGN), "ws": d(gen.SEEDS),
                                            "wk": "normal", "un": d.pick(0, 1, 2), "dt": x["dtype"]}}


def b_bconv(sp):
    from props import p20
    c = sp["cfg"]
    cls = BayerConv2dUnshuffle if c["un"] == 1 else BayerConv2d
    f = p20.load(cls(c["ci"], c["co"], c["k"], c["bias"]), p20.weights(c), c["bias"], gen.td(c["dt"]))
    return Inst(lambda f, t, A, m, nd: [((f.forward_unshuffle if c["un"] == 2 else f.forward)(t[0], c["al"]), None)], list(f.parameters()), mod=f)


Op("bayerconv", s_bconv, b_bconv, axes=False)


def s_demosaic(d):
    return {"x": [d.tensor(d.pick([], [1], [2]) + [1, 2 * d.half(2, 4), 2 * d.half(2, 4)], "f32")], "axes": None,
            "cfg": {"al": d.pick(*ref.ALIGN), "clamp": d.pick(1.0, 0.5, 4.0)}}


Op("demosaic", s_demosaic, lambda sp: Inst(lambda t, A, m, nd: [(demosaic(t[0], sp["cfg"]["al"], clamp=sp["cfg"]["clamp"]), None)]), axes=False, diff=False)


def s_last(d):
    n, h, w = d(st.integers(1, 2)), 2 * d.half(1, 3), 2 * d.half(1, 3)
    x = d.tensor([n, 1, h, w])
    return {"x": [x, d.tensor([n, 3, h, w], x["dtype"])], "axes": None, "cfg": {"al": d.pick(*ref.ALIGN)}}


Op("laststep", s_last, lambda sp: Inst(lambda t, A, m, nd: [(last_step_demosaic(t[0], t[1], sp["cfg"]["al"]), None)]), axes=False, n=2)


# ---------------------------------------------------------------- misc
def s_poly(d):
    return {"x": [d.tensor(d.shape(1, 4))], "axes": None, "cfg": {"p": d(st.lists(st.sampled_from([-2, 0, 1, 0.5, 3, -1.25]), min_size=2, max_size=6)), "form": d.pick("list", "np", "torch", "tuple")}}


def b_poly(sp):
    p = gen.container(sp["cfg"]["p"], sp["cfg"]["form"])
    return Inst(lambda t, A, m, nd: [(poly1d(t[0], p), None)], [p])


Op("poly1d", s_poly, b_poly, axes=False)


def s_pow(d):
    shape = d.shape(1, 3)
    x = d.tensor(shape, kinds=("normal", "unit"))
    e = d.pick(2, 0.5, 1.5, 3, -0.5, "tensor")
    return {"x": [x] + ([d.tensor(shape, x["dtype"], kinds=("unit",))] if e == "tensor" else []), "axes": None, "cfg": {"e": e}}


def b_pow(sp):
    e = sp["cfg"]["e"]
    return Inst(lambda t, A, m, nd: [(safe_power(t[0], t[1] if e == "tensor" else e), None)])


Op("power", s_pow, b_pow, axes=False)


def s_outer(d):
    x = d.tensor(d.shape(1, 2, 1, 4))
    return {"x": [x, d.tensor(d.shape(1, 2, 1, 4), x["dtype"])], "axes": None, "cfg": {}}


Op("outer", s_outer, lambda sp: Inst(lambda t, A, m, nd: [(outer(t[0], t[1]), None)]), axes=False, n=2)
Op("describe", lambda d: {"x": [d.tensor(d.shape(1, 4, 2, 5))], "axes": None, "cfg": {}},
   lambda sp: Inst(lambda t, A, m, nd: [(torch.tensor([v for _, v in sorted(describe(t[0]).items())], dtype=torch.float64, device="cpu"), None)]), axes=False, diff=False)


def s_conv(d):
    shape = d.shape(1, 4)
    dim = d(st.integers(0, len(shape) - 1))
    k, dil = d(st.integers(1, 4)), d(st.integers(1, 2))
    shape[dim] = (k - 1) * dil + 1 + d(st.integers(20, 30) if d.long else st.integers(0, 5))
    x = d.tensor(shape)
    return {"x": [x, dict(d.tensor([k], x["dtype"]), layout="c")], "axes": None, "cfg": {"dim": dim - d.pick(0, len(shape)), "stride": d(st.integers(1, 3)), "dil": dil}}


Op("anyconv", s_conv, lambda sp: Inst(lambda t, A, m, nd: [(any_conv_1d(t[0], t[1], dim=sp["cfg"]["dim"], stride=sp["cfg"]["stride"], dilation=sp["cfg"]["dil"]), None)]),
   axes=False, n=2)


def s_rand(d):
    shape = d.shape(1, 4)
    what = d.pick("crop", "gauss", "poisson")
    axes = d.axes(len(shape))
    return {"x": [d.tensor(shape, kinds=("unit",))], "axes": axes, "cfg": {"what": what, "size": [d(st.integers(1, shape[a])) for a in axes], "seed": d(gen.SEEDS),
                                                                          "sigma": d.pick(0, 1, 0.5), "k": d.pick(0.5, 1, 0.125)}}


def b_rand(sp):
    c = sp["cfg"]
    size = list(c["size"])

    def fn(t, A, m, nd):
        g = torch.Generator().manual_seed(c["seed"])
        if c["what"] == "crop":
            return [(random_crop(t[0], A(sp["axes"]), size, generator=g), None)]
        if c["what"] == "gauss":
            return [(add_gauss_noise(t[0], c["sigma"], generator=g), None)]
        return [(add_poisson_gauss_noise(t[0], c["k"], c["sigma"], generator=g), None)]
    return Inst(fn, [size])


Op("random", s_rand, b_rand, axes=False, diff=False)


def s_eloss(d):
    shape = [d(st.integers(1, 2)), d(st.integers(1, 3)), d(st.integers(2, 6)), d(st.integers(2, 6))]
    x = d.tensor(shape)
    return {"x": [x, d.tensor(shape, x["dtype"], kinds=("normal",))], "axes": None, "cfg": {"cls": d.pick(0, 1, 2, 3), "k": d(st.integers(2, 6)), "s": d.pick(0.8, 1.5, 2), "order": d.pick(1, 1, 2)}}


def b_eloss(sp):
    c = sp["cfg"]
    f = (GaussianEdgeLoss, WeightedMul, WeightedDiv, WeightedSum)[c["cls"]](c["k"], c["s"], c["order"])
    return Inst(lambda f, t, A, m, nd: [(f.forward(t[0], t[1]), None)], mod=f)


Op("edgeloss", s_eloss, b_eloss, axes=False, n=2)
