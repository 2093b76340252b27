"""P19 Bayer layout conversions"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.cfa import utils as cu

from lib import cmp, gen, ref
from lib.core import Test, call, rejects

ID = "P19"
RULE = ("one case = one image converted through every layout under one alignment; non-trivial = the image has at least one sample "
        "and at least four distinct values")
ASSUMPTIONS = ["downsampling integer images gives the floating result of torch's true division", "CPU tensors only"]

DTS = ("f64", "f32", "f16", "u8", "i16", "i32", "i64", "bool")


def case_variant(al, mask):
    return "".join(ch.lower() if mask >> i & 1 else ch for i, ch in enumerate(al))


@st.composite
def rand(draw, big=False):
    lead = draw(st.lists(st.sampled_from([1, 2, 3, 1, 0]), max_size=1 if big else 4))
    hi = draw(st.sampled_from((64, 130, 300))) if big == "huge" else 40 if big else 5
    h, w = 2 * draw(st.integers(1, hi)), 2 * draw(st.integers(1, hi))
    dt = draw(st.sampled_from(DTS))
    kinds = ("seq", "normal", "big") if dt in gen.FLOATS else ("bool",) if dt == "bool" else ("full", "seq") if dt != "u8" else ("full",)
    if dt == "f16":
        kinds = ("normal", "int")
    sp = lambda shape: {"shape": shape, "dtype": dt, "fill": draw(gen.fills(kinds)), "layout": draw(gen.layouts(len(shape)))}
    return {"one": sp(lead + [1, h, w]), "rgb": sp(lead + [3, h, w]), "al": draw(st.sampled_from(ref.ALIGN)),
            "case": draw(st.sampled_from([0, 0, 15, 5, 1]))}


def run_rand(c):
    one, a = gen.make(c["one"])
    rgb, p = gen.make(c["rgb"])
    AL = c["al"]
    al = case_variant(AL, c["case"])
    h, w = a.shape[-2:]
    four = np.zeros(a.shape[:-3] + (4, h // 2, w // 2), a.dtype)
    mosaic = np.zeros(p.shape[:-3] + (1, h, w), p.dtype)
    for i in range(h):
        for j in range(w):
            four[..., 2 * (i % 2) + j % 2, i // 2, j // 2] = a[..., 0, i, j]
            mosaic[..., 0, i, j] = p[..., "RGB".index(AL[2 * (i % 2) + j % 2]), i, j]
    y4 = call(cu.bayer_1c_to_4c, one)
    cmp.equal(y4, four, "bayer_1c_to_4c", dtype=one.dtype)
    t4 = gen.tensor_of(four, c["one"]["layout"] if not c["one"]["layout"].startswith("expand") else "c")
    cmp.equal(call(cu.bayer_4c_to_1c, t4), a, "bayer_4c_to_1c", dtype=one.dtype)
    cmp.equal(call(cu.bayer_4c_to_1c, y4), a, "1c -> 4c -> 1c", dtype=one.dtype)
    # a conversion makes a new tensor: writing to it does not reach the image it came from
    if a.size:
        call(cu.bayer_1c_to_4c, one).zero_()
        call(cu.bayer_4c_to_1c, t4).zero_()
        call(cu.rgb_to_1c_bayer, rgb, al).zero_()
        call(cu.rgb_to_4c_bayer, rgb, al).zero_()
        cmp.equal(one, a, "the 1-channel array after its conversion was overwritten")
        cmp.equal(t4, four, "the 4-channel array after its conversion was overwritten")
        cmp.equal(rgb, p, f"the RGB image after its conversion ({al}) was overwritten")
    m1 = call(cu.rgb_to_1c_bayer, rgb, al)
    cmp.equal(m1, mosaic, f"rgb_to_1c_bayer {al}", dtype=rgb.dtype)
    m4 = call(cu.rgb_to_4c_bayer, rgb, al)
    want4 = np.zeros(mosaic.shape[:-3] + (4, h // 2, w // 2), p.dtype)
    for i in range(h):
        for j in range(w):
            want4[..., 2 * (i % 2) + j % 2, i // 2, j // 2] = mosaic[..., 0, i, j]
    cmp.equal(m4, want4, f"rgb_to_4c_bayer {al}", dtype=rgb.dtype)
    # downsampling
    f = four.astype(np.float64)
    g1, g2 = AL.index("G"), AL.rindex("G")
    want = np.stack([f[..., AL.index("R"), :, :], (f[..., g1, :, :] + f[..., g2, :, :]) / 2, f[..., AL.index("B"), :, :]], axis=-3)
    out_dt = one.dtype if one.dtype.is_floating_point else torch.float32
    for name, v in (("downsample_1c_bayer_to_rgb", one), ("downsample_4c_bayer_to_rgb", t4)):
        d = call(getattr(cu, name), v, al)
        cmp.close(d, want, f"{name} {al} {c['one']['dtype']}", dtype=out_dt, ulp=4, elementwise=True,
                  scale=float(np.max(np.abs(want))) if want.size else 0.0)
        if one.dtype.is_floating_point or c["one"]["dtype"] in ("u8", "i16", "bool"):
            cmp.equal(d[..., 0, :, :].to(torch.float64), want[..., 0, :, :], f"{name}: R plane")
            cmp.equal(d[..., 2, :, :].to(torch.float64), want[..., 2, :, :], f"{name}: B plane")
    cmp.same(call(cu.check_sensor_alignment, al), AL, "check_sensor_alignment")
    return a.size > 0 and len(np.unique(a)) >= min(4, 2 if c["one"]["dtype"] == "bool" else 4), [
        c["one"]["dtype"], AL, "case=%d" % c["case"], "lead=%d" % (a.ndim - 3), "empty" if a.size == 0 else "nonempty"]


@st.composite
def bad(draw):
    return {"lead": draw(st.lists(st.integers(1, 3), max_size=2)), "h": draw(st.integers(1, 9)), "w": draw(st.integers(1, 9)),
            "ch": draw(st.integers(0, 6)), "al": draw(st.sampled_from(ref.ALIGN)),
            "badal": draw(st.one_of(st.text("RGBrgb", min_size=0, max_size=5), st.sampled_from(["RGBG", "GRGB", "RRGB", "RGGB ", "RGG", "BGRG", "GGRB", ""])))}


def run_bad(c):
    h, w, ch, al = c["h"], c["w"], c["ch"], c["al"]
    x = torch.zeros(c["lead"] + [ch, h, w])
    even = h % 2 == 0 and w % 2 == 0
    what = f"shape {tuple(x.shape)}"
    for name, ok, args in (("bayer_1c_to_4c", ch == 1 and even, ()), ("bayer_4c_to_1c", ch == 4, ()), ("rgb_to_1c_bayer", ch == 3 and even, (al,)),
                           ("rgb_to_4c_bayer", ch == 3 and even, (al,)), ("downsample_1c_bayer_to_rgb", ch == 1 and even, (al,)),
                           ("downsample_4c_bayer_to_rgb", ch == 4, (al,)), ("check_1c_bayer", ch == 1 and even, ()),
                           ("check_4c_bayer", ch == 4, ()), ("check_rgb", ch == 3, ())):
        f = getattr(cu, name)
        if ok:
            call(f, x, *args)
        else:
            rejects(f, x, *args, what=f"{name} of {what}")
        flat = torch.zeros([ch, h] if h else [ch])
        rejects(f, flat, *args, what=f"{name} of rank 2")
        rejects(f, x.numpy(), *args, what=f"{name} of a numpy array")
    if c["badal"].upper() not in ref.ALIGN:
        good = {1: torch.zeros(1, 2, 2), 3: torch.zeros(3, 2, 2), 4: torch.zeros(4, 1, 1)}
        rejects(cu.check_sensor_alignment, c["badal"], what=f"alignment {c['badal']!r}")
        rejects(cu.rgb_to_1c_bayer, good[3], c["badal"], what=f"alignment {c['badal']!r}")
        rejects(cu.rgb_to_4c_bayer, good[3], c["badal"], what=f"alignment {c['badal']!r}")
        rejects(cu.downsample_1c_bayer_to_rgb, good[1], c["badal"], what=f"alignment {c['badal']!r}")
        rejects(cu.downsample_4c_bayer_to_rgb, good[4], c["badal"], what=f"alignment {c['badal']!r}")
    rejects(cu.check_sensor_alignment, 5, what="alignment 5")
    return True, ["even" if even else "odd", "ch=%d" % ch]


TESTS = [
    Test("convert", run_rand, strategy=rand(), quick=6000),
    Test("large", run_rand, strategy=rand(big=True), quick=200), Test("huge", run_rand, strategy=rand(big="huge"), quick=60),
    Test("reject", run_bad, strategy=bad(), quick=2000),
]
