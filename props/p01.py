"""P01 border extension modes"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.padding import Padder

from lib import cmp, gen, ref
from lib.core import Test, call

ID = "P01"
RULE = ("one case = one axis padded by one extension mode at (before, after); box test enumerates every mode x length x "
        "before x after, random tests draw rank, axis, dtype, layout, values and widths up to several wraps; non-trivial "
        "= at least one border element is filled and the signal is not a single constant")
ASSUMPTIONS = ["zero-length axes, periodize with zero width, unsigned types under sign-changing modes are outside the domain",
               "CPU tensors only"]

COPY = ("zeros", "replicate", "circular", "periodize", "symmetric", "reflect")


def tol_for(mode, n, b, a):
    wraps = max(b, a) // max(n - 1, 1) + 1
    return 64 + 4 * wraps * wraps


def verify(mode, x, a, axis, b, af, how, what):
    if how == "pad_axis":
        y = call(Padder(pad_width=(b, af), mode=mode).pad_axis, x, 0, axis)
    elif how == "pad_axis_neg":
        y = call(Padder(pad_width=[(0, 0), (b, af)], mode=mode).pad_axis, x, -1, axis)
    elif how == "list":
        y = call(Padder(pad_width=[(b, af)], mode=[mode]).forward, x, axes=[axis])
    elif how == "int" and b == af:
        y = call(Padder(pad_width=b, mode=mode).forward, x, axes=axis)
    else:
        y = call(Padder(pad_width=(b, af), mode=mode).forward, x, axes=axis)
    n = a.shape[axis]
    want = ref.pad_1d(a, axis, b, af, mode)
    cmp.same_dtype(y, x.dtype, what)
    cmp.shape_is(y, want.shape, what)
    sl = [slice(None)] * a.ndim
    sl[axis] = slice(b, b + n)
    cmp.equal(y[tuple(sl)], a, what + ": original samples")
    if mode in COPY or a.dtype.kind in "iub" or mode == "antisymmetric":
        cmp.equal(y, want.astype(a.dtype) if a.dtype.kind in "iub" else want, what)
    else:
        cmp.close(y, want, what, ulp=tol_for(mode, n, b, af))


def box(tier):
    nmax, wmax = (6, 14) if tier == "quick" else (9, 30)
    for mode in gen.EXT_MODES:
        for n in range(1, nmax + 1):
            for b in range(wmax + 1):
                for a in range(wmax + 1):
                    if mode == "periodize" and a == b == 0:
                        continue
                    yield {"mode": mode, "n": n, "b": b, "a": a}


def run_box(c):
    n = c["n"]
    vals = np.array([(7 * i * i + 3 * i + 1) % 19 - 6 for i in range(2 * n)], dtype=np.float64).reshape(2, n)
    verify(c["mode"], torch.from_numpy(vals.copy()), vals, 1, c["b"], c["a"], "pair", f"{c['mode']} last axis")
    v2 = np.ascontiguousarray(vals.T)
    verify(c["mode"], torch.from_numpy(v2.copy()), v2, 0, c["b"], c["a"], "pair", f"{c['mode']} first axis")
    w = max(c["b"], c["a"])
    return w > 0, ["wraps=%d" % min(3, w // n)]


@st.composite
def rand(draw):
    mode = draw(st.sampled_from(gen.EXT_MODES))
    shape = draw(gen.shapes(1, 7, 1, 8, 300))
    axis = draw(st.integers(-len(shape), len(shape) - 1))
    if mode in COPY:
        dts = ("f64", "f32", "f16", "i64", "i32", "i16", "u8", "bool")
        kinds = ("special", "normal", "seq", "big")
        ik = ("int", "full")
    else:
        dts = ("f64", "f32", "i64", "i32")
        kinds = ("normal", "int", "seq", "unit", "tiny")
        ik = ("int", "seq")
    wide = draw(st.booleans())
    b = draw(st.integers(0, 24 if wide else 6))
    a = draw(st.integers(0, 24 if wide else 6))
    if mode == "periodize" and a == b == 0:
        a = 1
    return {"mode": mode, "x": draw(gen.tensors(shape, dts, kinds, int_kinds=ik)), "axis": axis, "b": b, "a": a,
            "how": draw(st.sampled_from(("pair", "pad_axis", "pad_axis_neg", "list", "int")))}


def run_rand(c):
    x, a = gen.make(c["x"])
    axis = c["axis"] % a.ndim if c["how"] != "pair" else c["axis"]
    verify(c["mode"], x, a, axis, c["b"], c["a"], c["how"], f"{c['mode']} {c['how']}")
    n = a.shape[axis]
    w = max(c["b"], c["a"])
    return w > 0 and len(np.unique(a[~np.isnan(a)] if a.dtype.kind == "f" else a)) > 1, [
        "mode=" + c["mode"], "dtype=" + c["x"]["dtype"], "layout=" + c["x"]["layout"].split(":")[0],
        "n=" + (str(n) if n < 3 else "3+"), "wraps=%d" % min(3, w // n)]


@st.composite
def big(draw):
    mode = draw(st.sampled_from(gen.EXT_MODES))
    n = draw(st.integers(1, 400))
    k = draw(st.sampled_from((1, 1, 2)))
    shape = draw(st.permutations([n, k])) if k > 1 else [n]
    b = draw(st.integers(0, 3 * n + 5)) if draw(st.booleans()) else draw(st.integers(0, 1000))
    a = draw(st.integers(0, 3 * n + 5)) if draw(st.booleans()) else draw(st.integers(0, 1000))
    if mode == "periodize" and a == b == 0:
        a = 1
    return {"mode": mode, "x": {"shape": list(shape), "dtype": draw(st.sampled_from(("f64", "i64", "f64"))),
                                "fill": {"k": draw(st.sampled_from(("int", "seq"))), "s": draw(gen.SEEDS)}},
            "axis": shape.index(n), "b": b, "a": a, "how": "pair"}


def run_big(c):
    x, a = gen.make(c["x"])
    c = dict(c, x=dict(c["x"], layout="c"))
    verify(c["mode"], x, a, c["axis"], c["b"], c["a"], "pair", f"{c['mode']} long axis")
    return max(c["b"], c["a"]) > 0, ["mode=" + c["mode"], "wraps=%d" % min(5, max(c["b"], c["a"]) // a.shape[c["axis"]])]


@st.composite
def huge(draw):
    """several long axes at once, or one axis or width in the tens of thousands"""
    mode = draw(st.sampled_from(gen.EXT_MODES))
    shape = list(draw(gen.huge_shapes(1, 3)))
    axis = draw(st.integers(0, len(shape) - 1))
    n, rest = shape[axis], int(np.prod(shape)) // shape[axis]
    room = max(1, 90000 // rest)
    width = st.one_of(st.integers(0, 3), st.just(0), st.sampled_from((n - 1, n, n + 1, 2 * n, 127, 128, 255, 256, 1023, 1024, 4096, 32768, 65536)), st.integers(0, room))
    b, a = min(room, draw(width)), min(room, draw(width))
    if mode == "periodize" and a == b == 0:
        a = 1
    dts = ("f64", "f32", "i64", "i32") + (("u8", "f16", "i16", "bool") if mode in COPY else ())
    dt = draw(st.sampled_from(dts))
    kinds = ("int", "normal") if dt in gen.FLOATS else ("full",) if dt == "u8" else ("bool",) if dt == "bool" else ("int",)
    return {"mode": mode, "x": {"shape": shape, "dtype": dt, "fill": {"k": draw(st.sampled_from(kinds)), "s": draw(gen.SEEDS)}},
            "axis": axis, "b": b, "a": a, "how": "pair"}


@st.composite
def wide_ints(draw):
    """sums and products of such integers are exact in their own type only"""
    mode = draw(st.sampled_from(gen.EXT_MODES))
    shape = draw(gen.shapes(1, 3, 1, 8, 100))
    b, a = draw(st.integers(0, 12)), draw(st.integers(0, 12))
    if mode == "periodize" and a == b == 0:
        a = 1
    return {"mode": mode, "x": {"shape": shape, "dtype": draw(st.sampled_from(("i64", "i64", "i32"))), "fill": {"k": "wide", "s": draw(gen.SEEDS)},
                                "layout": draw(gen.layouts(len(shape)))},
            "axis": draw(st.integers(0, len(shape) - 1)), "b": b, "a": a, "how": draw(st.sampled_from(("pair", "pad_axis", "list")))}


TESTS = [
    Test("wide", run_rand, strategy=wide_ints(), quick=2500),
    Test("box", run_box, enum=box),
    Test("random", run_rand, strategy=rand(), quick=9000),
    Test("long", run_big, strategy=big(), quick=3000),
    Test("huge", run_big, strategy=huge(), quick=160),
]
