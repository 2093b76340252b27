"""P32 rejection of invalid specifications"""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.cfa import BayerConv2d, demosaic
from torchimage.cfa import utils as cu
from torchimage.filtering import EdgeFilter, Farid, GaussianGrad, Laplace, LaplacianOfGaussian, Prewitt, Scharr, Sobel, UnsharpMask
from torchimage.metrics import MS_SSIM, MSE, PSNR, SSIM
from torchimage.padding import Padder
from torchimage.padding.utils import same_padding_width
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
from torchimage.random import random_crop
from torchimage.utils import NdSpec

from lib import cmp, gen, ops, ref
from lib.core import Test, Violation, call, rejects

ID = "P32"
RULE = ("one case = one valid specification, accepted, and the same specification with one invalid entry, rejected; non-trivial = the invalid "
        "entry is not the only entry of the specification")
ASSUMPTIONS = ["lists of conflicting lengths have at least two entries each"]


SMALL = st.integers(0, 4) | st.sampled_from((7, 20, 100, 1000, 2 ** 31, 2 ** 40))
NEG = st.sampled_from((-1, -1, -1, -2, -3, -4, -7, -10, -1000, -2 ** 31, -2 ** 40))


def put(lst, i, v):
    lst = list(lst)
    lst[i % len(lst)] = v
    return lst


# ---------------------------------------------------------------- padder
@st.composite
def r_padder(draw):
    m = draw(st.integers(1, 6))
    return {"m": m, "w": [[draw(SMALL), draw(SMALL)] for _ in range(m)], "i": draw(st.integers(0, 9)), "side": draw(st.integers(0, 1)),
            "neg": draw(NEG), "fmt": draw(st.sampled_from(("int", "pair", "list", "np"))),
            "modes": [draw(st.sampled_from(gen.VALUE_MODES + ("empty",))) for _ in range(m)],
            "bad": draw(st.sampled_from(("Reflect", "reflected", "", "wrap", "edge", "symetric", "zero", "nearest", "REPLICATE", "circular ", "periodic", "none", "odd", "_circular",
                                         "mode", "stat", "max", "average", "linear"))),
            "other": draw(st.integers(2, 7)), "what": draw(st.sampled_from(("cv", "ev", "sl", "mode", "pw")))}


def run_padder(c):
    m, w = c["m"], c["w"]
    fmt = c["fmt"]
    if fmt == "int":
        good, bad = w[0][0], c["neg"]
    elif fmt == "pair":
        good, bad = tuple(w[0]), tuple(put(w[0], c["side"], c["neg"]))
    else:
        good = [tuple(v) for v in w]
        bad = [tuple(put(v, c["side"], c["neg"])) if j == c["i"] % m else tuple(v) for j, v in enumerate(w)]
        if fmt == "np":
            good, bad = np.array(good), np.array(bad)
    call(Padder, pad_width=good)
    rejects(Padder, pad_width=bad, exc=ValueError, what=f"Padder(pad_width={bad!r})")
    rejects(Padder, pad_width=bad, mode="reflect", exc=ValueError, what=f"Padder(pad_width={bad!r}, mode='reflect')")
    wrap = lambda v: NdSpec(v, item_shape=(2,))
    call(Padder, pad_width=wrap(good))
    rejects(Padder, pad_width=wrap(bad), exc=ValueError, what=f"Padder(pad_width=NdSpec({bad!r}))")
    modes = list(c["modes"])
    call(Padder, pad_width=w[0][0], mode=modes)
    b = c["bad"]
    rejects(Padder, mode=b, exc=ValueError, what=f"Padder(mode={b!r})")
    worse = put(modes, c["i"], b)
    rejects(Padder, pad_width=1, mode=worse, exc=ValueError, what=f"Padder(mode={worse!r})")
    rejects(SeparablePoolNd, [1, 2], same_padder=b, exc=ValueError, what=f"SeparablePoolNd(same_padder={b!r})")
    rejects(Sobel, same_padder=b, exc=ValueError, what=f"Sobel(same_padder={b!r})")
    rejects(SSIM, padder=b, exc=ValueError, what=f"SSIM(padder={b!r})")
    # conflicting lengths
    k = c["other"]
    if m >= 2 and k != m:
        names = {"cv": "constant_values", "ev": "end_values", "sl": "stat_length"}
        widths = [tuple(v) for v in w]
        if c["what"] == "mode":
            kw = {"pad_width": widths, "mode": ["zeros"] * k}
            ok = {"pad_width": widths, "mode": ["zeros"] * m}
        elif c["what"] == "pw":
            kw = {"pad_width": widths[:1] * k, "mode": modes}
            ok = {"pad_width": widths, "mode": modes}
        else:
            kw = {"pad_width": widths, names[c["what"]]: [(1, 2)] * k}
            ok = {"pad_width": widths, names[c["what"]]: [(1, 2)] * m}
        call(Padder, **ok)
        rejects(Padder, **kw, exc=ValueError, what=f"Padder({kw!r})")
    return m > 1, ["fmt=" + fmt, "m=%d" % m, "conflict=" + c["what"] if m >= 2 and k != m else "-"]


# ---------------------------------------------------------------- pooling
@st.composite
def r_pool(draw):
    m = draw(st.integers(1, 6))
    return {"m": m, "k": [draw(st.integers(1, 4)) for _ in range(m)], "s": [draw(st.one_of(st.none(), st.integers(1, 3), st.integers(1, 3), st.sampled_from((8, 50, 1000)))) for _ in range(m)], "i": draw(st.integers(0, 9)),
            "bad": draw(st.just(0) | NEG), "single": draw(st.booleans()), "kind": draw(st.sampled_from(("sep", "avg", "gauss"))),
            "other": draw(st.integers(2, 7)), "nd": draw(st.integers(1, 5)), "pad": draw(st.sampled_from(("reflect", "zeros", None))), "conf": draw(st.sampled_from(("stride", "sigma", "order"))),
            "np": draw(st.booleans())}


def mk(c, ks, stride, sigma=1.5, order=0):
    if c["kind"] == "sep":
        return SeparablePoolNd([[1.0] * k for k in ks] if isinstance(ks, list) else [1.0] * ks, stride, same_padder=c["pad"])
    if c["kind"] == "avg":
        return AvgPoolNd(ks, stride, same_padder=c["pad"])
    return GaussianPoolNd(ks, sigma, order, stride, same_padder=c["pad"])


def run_pool(c):
    m = c["m"]
    ks, ss = (c["k"][0], c["s"][0]) if c["single"] else (list(c["k"]), list(c["s"]))
    f = call(mk, c, ks, ss)
    call(mk, c, ks, 1)
    bad = c["bad"] if c["single"] else put(ss, c["i"], c["bad"])
    call(mk, c, ks, NdSpec(ss))
    rejects(mk, c, ks, NdSpec(bad), exc=ValueError, what=f"{c['kind']} pooling with stride NdSpec({bad!r})")
    rejects(mk, c, ks, bad, exc=ValueError, what=f"{c['kind']} pooling with stride {bad!r}")
    rejects(mk, c, ks, c["bad"], exc=ValueError, what=f"{c['kind']} pooling with stride {c['bad']!r}")
    if not c["single"] and m >= 2 and c["other"] != m:
        k = c["other"]
        if c["kind"] == "gauss" and c["conf"] != "stride":
            kw = {c["conf"]: [1] * k}
            rejects(mk, c, ks, None, exc=ValueError, what=f"gaussian pooling with {m} kernel sizes and {kw}", **kw)
            call(mk, c, ks, None, **{c["conf"]: [1] * m})
        else:
            rejects(mk, c, ks, [1] * k, exc=ValueError, what=f"{c['kind']} pooling with {m} kernels and {k} strides")
    # number of axes
    many = m if not c["single"] else (len(ss) if isinstance(ss, list) else 0)
    nd = c["nd"]
    x = torch.arange(float(6 ** min(nd, 3)) if nd < 4 else 6.0 * 4 ** (nd - 1)).to(torch.float64).reshape([6] * nd if nd < 4 else [6] + [4] * (nd - 1))
    labels = ["kind=" + c["kind"], "single" if c["single"] else "m=%d" % m]
    if not c["single"]:
        # a list of one entry still is a list
        if nd != m:
            rejects(f.forward, x, axes=list(range(nd)), what=f"{c['kind']} pooling with {m} kernels over {nd} axes")
            labels.append("wrong number of axes")
        else:
            call(f.forward, x, axes=list(range(nd)))
    else:
        call(f.forward, x, axes=[c["i"] % nd])
    g = call(mk, c, c["k"][0], [1] * max(2, m))
    if nd != max(2, m):
        rejects(g.forward, x, axes=None, what=f"{c['kind']} pooling with {max(2, m)} strides over {nd} axes")
    else:
        call(g.forward, x, axes=None)
    return m > 1, labels


# ---------------------------------------------------------------- axes
@st.composite
def r_axes(draw):
    sp = draw(ops.strategy([n for n, o in ops.OPS.items() if o.axes], layout=False))
    if sp["op"] == "edge" and sp["cfg"]["what"] in ("horizontal", "vertical"):
        sp["cfg"]["what"] = "component"
    return {"sp": sp, "i": draw(st.integers(0, 9)), "off": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8, 100, 10 ** 6])), "neg": draw(st.booleans()), "form": draw(st.sampled_from(("list", "tuple", "np", "int"))),
            "red": draw(st.booleans())}


def run_axes(c):
    sp = copy.deepcopy(c["sp"])
    nd = len(sp["x"][0]["shape"])
    ts = [gen.make(t)[0] for t in sp["x"]]
    call(call(ops.build, sp), ts, form=c["form"] if c["form"] != "int" else "list")
    bad = -nd - 1 - c["off"] if c["neg"] else nd + c["off"]
    where = "axes"
    if "reduce" in sp["cfg"] and c["red"]:
        sp["cfg"]["reduce"] = put(sp["cfg"]["reduce"], c["i"], bad)
        where = "reduce"
    else:
        sp["axes"] = put(sp["axes"], c["i"], bad)
    inst = call(ops.build, sp)
    rejects(inst, ts, form=c["form"], exc=ValueError, what=f"{sp['op']} {where} {sp['axes']} of a {nd}-dimensional tensor {sp['cfg']}"[:400])
    return len(sp["axes"]) > 1, ["op=" + sp["op"], "neg" if c["neg"] else "pos", where, "form=" + c["form"]]


@st.composite
def r_crop(draw):
    shape = draw(gen.shapes(1, 4, 1, 6, 200))
    axes = gen.norm_axes(draw(gen.axes_of(len(shape), 1)), len(shape))
    return {"shape": shape, "axes": axes, "i": draw(st.integers(0, 9)), "off": draw(st.sampled_from([1, 1, 2, 3, 5, 9, 100])), "neg": draw(st.booleans())}


def run_crop(c):
    shape, axes = c["shape"], c["axes"]
    nd = len(shape)
    x = torch.arange(float(np.prod(shape))).reshape(shape)
    whole = [shape[a] for a in axes]
    cmp.equal(call(random_crop, x, axes, whole), x.numpy(), f"random_crop of the whole of {shape} over {axes}")
    big = put(whole, c["i"], whole[c["i"] % len(whole)] + c["off"])
    rejects(random_crop, x, axes, big, what=f"random_crop of {big} from {shape} over {axes}")
    rejects(random_crop, x, put(axes, c["i"], -nd - c["off"] if c["neg"] else nd - 1 + c["off"]), 1, exc=ValueError, what="random_crop over an axis out of range")
    return len(axes) > 1, ["nd=%d" % nd]


# ---------------------------------------------------------------- same padding width
@st.composite
def r_same(draw):
    big = lambda lo, hi: draw(st.integers(lo, hi) | st.integers(lo, hi) | st.sampled_from((16, 33, 100, 10 ** 6)))
    return {"k": big(1, 9), "s": big(2, 6), "n": big(1, 20), "m": draw(st.integers(1, 5)), "i": draw(st.integers(0, 5))}


def run_same(c):
    k, s, n = c["k"], c["s"], c["n"]
    call(same_padding_width, k, 1)
    call(same_padding_width, k, s, n)
    rejects(same_padding_width, k, s, exc=ValueError, what=f"same_padding_width({k}, {s}) without a size")
    p = Padder(mode="reflect")
    st_ = put([1] * c["m"], c["i"], s)
    rejects(p.to_same, [k] * c["m"], st_, exc=ValueError, what=f"Padder.to_same({[k] * c['m']}, {st_}) without a size")
    call(Padder(mode="reflect").to_same, [k] * c["m"], st_, [n] * c["m"])
    call(Padder(mode="reflect").to_same, [k] * c["m"], 1)
    return c["m"] > 1, ["m=%d" % c["m"]]


# ---------------------------------------------------------------- metrics
@st.composite
def r_metric(draw):
    shape = draw(gen.shapes(1, 6, 2, 5, 300) | gen.shapes(1, 3, 2, 40, 3000))
    kind = draw(st.sampled_from(("one", "rank", "swap", "longer")))
    i = draw(st.integers(0, len(shape) - 1))
    other = list(shape)
    if kind == "one":
        other[i] = 1
    elif kind == "rank":
        other = [1] + other if draw(st.booleans()) else other[1:] or [1, 1]
    elif kind == "swap":
        other = other[::-1]
    else:
        other[i] += draw(st.integers(1, 3))
    return {"shape": shape, "other": other, "kind": kind, "red": draw(st.sampled_from(("avg", "Mean", "", "max", "summed", "none ", "SUM", "batchmean")))}


def run_metric(c):
    x, y = torch.ones(c["shape"], dtype=torch.float64), torch.zeros(c["other"], dtype=torch.float64)
    if c["shape"] != c["other"]:
        for f in (MSE(), PSNR(), MSE(reduction="sum"), MSE(reduction="none"), PSNR(reduction="none")):
            rejects(f.forward, x, y, what=f"{type(f).__name__} of shapes {c['shape']} and {c['other']}")
            rejects(f.forward, y, x, what=f"{type(f).__name__} of shapes {c['other']} and {c['shape']}")
        s = SSIM(AvgPoolNd(2))
        rejects(s.forward, x, y, content_axes=[0], reduce_axes=[0], what=f"SSIM of shapes {c['shape']} and {c['other']}")
        rejects(s.forward, y, x, content_axes=[0], reduce_axes=[0], what=f"SSIM of shapes {c['other']} and {c['shape']}")
        m = MS_SSIM(weights=[1.0], blur=AvgPoolNd(1), use_sample_covariance=False)
        rejects(m.forward, x, y, content_axes=[0], reduce_axes=[0], what=f"MS_SSIM of shapes {c['shape']} and {c['other']}")
        rejects(m.forward, y, x, content_axes=[0], reduce_axes=[0], what=f"MS_SSIM of shapes {c['other']} and {c['shape']}")
    for cls in (MSE, PSNR):
        def use(red):
            return cls(reduction=red).forward(x, x)
        for ok in ("mean", "sum", "none"):
            call(use, ok)
        rejects(use, c["red"], what=f"{cls.__name__}(reduction={c['red']!r})")
    return len(c["shape"]) > 1 and c["shape"] != c["other"], [c["kind"]]


# ---------------------------------------------------------------- edges
@st.composite
def r_edge(draw):
    nd = draw(st.integers(2, 4))
    return {"nd": nd, "k": draw(gen.kernels(1, 4)), "k2": draw(gen.kernels(1, 4)), "axes": draw(gen.axes_of(nd, 2)), "rest": draw(st.integers(0, 3)),
            "pad": draw(st.sampled_from(("reflect", "zeros")))}


def run_edge(c):
    nd = c["nd"]
    x = torch.arange(4.0 ** nd).reshape([4] * nd)
    mkf = lambda e: EdgeFilter(e, [1, 2, 1], normalize=False, same_padder=c["pad"])
    f = call(mkf, c["k"])
    rejects(mkf, [c["k"], c["k2"]], what="EdgeFilter with two edge kernels")
    rejects(mkf, [c["k"], c["k2"], c["k"]], what="EdgeFilter with three edge kernels")
    for g in (f, Sobel(), Prewitt(), Scharr(), Farid(), GaussianGrad(3, 1.0)):
        one = c["axes"][0]
        call(g.component, x, one, c["axes"][1:])
        call(g.component, x, [one], None)
        rejects(g.component, x, c["axes"], c["axes"][:1], exc=ValueError, what=f"{type(g).__name__}.component with edge axes {c['axes']}")
        rejects(g.component, x, None, None, exc=ValueError, what=f"{type(g).__name__}.component with edge axis None")
        rejects(g.magnitude, x, [one], exc=ValueError, what=f"{type(g).__name__}.magnitude over one axis")
        rejects(g.all_components, x, one, exc=ValueError, what=f"{type(g).__name__}.all_components over one axis")
    rejects(Laplace().forward, x, axes=c["axes"][0], exc=ValueError, what="Laplace over one axis")
    return True, ["nd=%d" % nd]


# ---------------------------------------------------------------- colour filter arrays
@st.composite
def r_bayer(draw):
    return {"lead": draw(st.sampled_from([[], [1], [2], [2, 3], [3, 1, 2], [4]])), "h": draw(st.integers(1, 4) | st.integers(1, 20)), "w": draw(st.integers(1, 4) | st.integers(1, 20)), "odd": draw(st.sampled_from(("h", "w", "hw"))),
            "ch": draw(st.sampled_from([2, 3, 4, 5, 6, 8, 12, 16])), "al": draw(st.sampled_from(ref.ALIGN)),
            "bad": draw(st.sampled_from(("RGGG", "RGB", "", "RGGBR", "GGRB", "BRGG", "RGBG", "RBGG", "rggr", "GRGB", "RRGB", "bayer", "XGGB", " RGGB", "RGGB ", "GBRB"))),
            "kind": draw(st.sampled_from((None, 4, 1.5, ["R", "G", "G", "B"], ["R"])))}


def run_bayer(c):
    h, w = 2 * c["h"], 2 * c["w"]
    oh, ow = h + ("h" in c["odd"]), w + ("w" in c["odd"])
    T = lambda *s: torch.ones(*c["lead"], *s)
    one = {"1c4c": cu.bayer_1c_to_4c, "down1c": lambda x: cu.downsample_1c_bayer_to_rgb(x, c["al"])}
    rgb = {"rgb1c": lambda x: cu.rgb_to_1c_bayer(x, c["al"]), "rgb4c": lambda x: cu.rgb_to_4c_bayer(x, c["al"])}
    four = {"4c1c": cu.bayer_4c_to_1c, "down4c": lambda x: cu.downsample_4c_bayer_to_rgb(x, c["al"])}
    for n, f in one.items():
        call(f, T(1, h, w))
        rejects(f, T(1, oh, ow), what=f"{n} of a {oh} x {ow} mosaic")
        rejects(f, T(c["ch"], h, w), what=f"{n} of {c['ch']} channels")
        rejects(f, torch.ones(h, w), what=f"{n} of a matrix")
    for n, f in rgb.items():
        call(f, T(3, h, w))
        rejects(f, T(3, oh, ow), what=f"{n} of a {oh} x {ow} image")
        for ch in {1, c["ch"]} - {3}:
            rejects(f, T(ch, h, w), what=f"{n} of {ch} channels")
        rejects(f, torch.ones(h, w), what=f"{n} of a matrix")
    for n, f in four.items():
        call(f, T(4, h, w))
        for ch in {1, c["ch"]} - {4}:
            rejects(f, T(ch, h, w), what=f"{n} of {ch} channels")
        rejects(f, torch.ones(h, w), what=f"{n} of a matrix")
    conv = BayerConv2d(1, 1, 3, False)
    for b in (c["bad"], c["kind"]):
        rejects(cu.downsample_1c_bayer_to_rgb, T(1, h, w), b, what=f"downsample_1c_bayer_to_rgb with alignment {b!r}")
        rejects(cu.downsample_4c_bayer_to_rgb, T(4, h, w), b, what=f"downsample_4c_bayer_to_rgb with alignment {b!r}")
        rejects(cu.rgb_to_1c_bayer, T(3, h, w), b, what=f"rgb_to_1c_bayer with alignment {b!r}")
        rejects(cu.rgb_to_4c_bayer, T(3, h, w), b, what=f"rgb_to_4c_bayer with alignment {b!r}")
        rejects(conv.forward, torch.ones(1, h + 2, w + 2), b, what=f"BayerConv2d with alignment {b!r}")
        rejects(conv.forward_unshuffle, torch.ones(1, h + 2, w + 2), b, what=f"BayerConv2d.forward_unshuffle with alignment {b!r}")
        rejects(demosaic, torch.ones(1, h + 4, w + 4), b, what=f"demosaic with alignment {b!r}")
    call(conv.forward, torch.ones(1, h + 2, w + 2), c["al"].lower())
    call(cu.rgb_to_1c_bayer, T(3, h, w), c["al"].lower())
    return True, ["odd=" + c["odd"], "ch=%d" % c["ch"]]


TESTS = [Test("padder", run_padder, strategy=r_padder(), quick=3000), Test("pooling", run_pool, strategy=r_pool(), quick=3000),
         Test("axes", run_axes, strategy=r_axes(), quick=3000), Test("crop", run_crop, strategy=r_crop(), quick=1500), Test("same", run_same, strategy=r_same(), quick=1500),
         Test("metrics", run_metric, strategy=r_metric(), quick=1500), Test("edges", run_edge, strategy=r_edge(), quick=800), Test("bayer", run_bayer, strategy=r_bayer(), quick=1500)]
