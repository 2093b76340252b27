"""P02 constant, linear ramp and statistic padding"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.padding import Padder

from lib import cmp, gen, ref
from lib.core import Test, call

ID = "P02"
RULE = ("one case = a tensor padded on one or more axes by constant / linear_ramp / maximum / mean / minimum / median with "
        "scalar, pair or per-axis parameters; non-trivial = some border is filled and the signal is not constant")
ASSUMPTIONS = ["linear_ramp and mean on floating tensors only; no NaN under statistics", "CPU tensors only"]

PMODES = ("constant", "linear_ramp", "maximum", "mean", "minimum", "median")


def check(y, x, a, mode, axes, widths, cvs, evs, sls, what):
    want = ref.pad_nd(a, axes, widths, [mode] * len(axes), cvs, evs, sls)
    cmp.same_dtype(y, x.dtype, what)
    cmp.shape_is(y, want.shape, what)
    idx = [slice(None)] * a.ndim
    for ax, w in zip(axes, widths):
        idx[ax] = slice(w[0], w[0] + a.shape[ax])
    cmp.equal(y[tuple(idx)], a, what + ": original samples")
    if mode in ("constant", "maximum", "minimum", "median"):
        cmp.equal(y, want, what)
    else:
        scale = float(np.max(np.abs(a))) if a.size else 0.0
        cmp.close(y, want, what, ulp=64, scale=scale)
        if mode == "linear_ramp":  # the outermost elements of the last padded axis are the end values
            ax, w, e = axes[-1], widths[-1], evs[-1]
            out = y.detach()
            if w[0]:
                cmp.close(out.select(ax, 0), np.full([s for i, s in enumerate(want.shape) if i != ax % a.ndim], e[0]),
                          what + ": first element", ulp=4)
            if w[1]:
                cmp.close(out.select(ax, out.shape[ax] - 1), np.full([s for i, s in enumerate(want.shape) if i != ax % a.ndim], e[1]),
                          what + ": last element", ulp=4)


def box(tier):
    nmax, wmax = (5, 3) if tier == "quick" else (8, 5)
    for mode in PMODES[2:]:
        for n in range(1, nmax + 1):
            sl = [None, 0, 1, 2, 3, n - 1, n, n + 3, 50]
            for s0 in sl:
                for s1 in sl:
                    for b in range(wmax + 1):
                        for a in range(wmax + 1):
                            yield {"mode": mode, "n": n, "b": b, "a": a, "sl": [s0, s1]}


def run_box(c):
    n = c["n"]
    vals = np.array([((5 * i * i + 11 * i + 2) % 17) - 7 for i in range(2 * n)], dtype=np.float64).reshape(2, n)
    for axis, v in ((1, vals), (0, np.ascontiguousarray(vals.T))):
        x = torch.from_numpy(v.copy())
        y = call(Padder((c["b"], c["a"]), mode=c["mode"], stat_length=tuple(c["sl"])).forward, x, axes=axis)
        check(y, x, v, c["mode"], [axis], [(c["b"], c["a"])], [(0, 0)], [(0., 0.)], [tuple(c["sl"])], c["mode"])
    return c["b"] + c["a"] > 0 and n > 1, ["none" if None in c["sl"] else "given", "clip" if any(s is not None and (s > n or s < 1) for s in c["sl"]) else "noclip"]


@st.composite
def param(draw, m, item):
    """A parameter as scalar, pair, or list of m pairs -> (value to pass, list of m pairs)."""
    k = draw(st.sampled_from(("scalar", "pair", "list")))
    if k == "scalar":
        v = draw(item)
        return {"pass": v, "each": [[v, v]] * m, "k": k}
    if k == "pair":
        v = [draw(item), draw(item)]
        return {"pass": v, "each": [v] * m, "k": k}
    v = [[draw(item), draw(item)] for _ in range(m)]
    return {"pass": v, "each": v, "k": k}


@st.composite
def rand(draw):
    mode = draw(st.sampled_from(PMODES))
    shape = draw(gen.shapes(1, 6, 1, 7, 200))
    axes = draw(gen.axes_of(len(shape), 1, 3))
    m = len(axes)
    dts = ("f64", "f32") if mode in ("linear_ramp", "mean") else ("f64", "f32", "i64", "i32", "u8", "f16")
    x = draw(gen.tensors(shape, dts, ("normal", "int", "seq", "unit")))
    num = gen.NUM if x["dtype"] in ("f64", "f32") else (st.integers(0, 9) if x["dtype"] == "u8" else st.integers(-5, 5))
    return {"mode": mode, "x": x, "axes": axes,
            "w": draw(param(m, st.integers(0, 9))),
            "cv": draw(param(m, num)),
            "ev": draw(param(m, gen.NUM)),
            "sl": draw(param(m, st.one_of(st.none(), st.integers(-1, 9)))),
            "form": draw(gen.AXFORM)}


def arg(p):
    """tuples for pairs, so that a pair is never mistaken for anything else"""
    v = p["pass"]
    if p["k"] == "pair":
        return tuple(v)
    if p["k"] == "list":
        return [tuple(q) for q in v]
    return v


def run_rand(c):
    x, a = gen.make(c["x"])
    p = call(Padder, arg(c["w"]), mode=c["mode"], constant_values=arg(c["cv"]), end_values=arg(c["ev"]), stat_length=arg(c["sl"]))
    # the padder's number of entries decides how many of the (rightmost) axes are padded
    y = call(p.forward, x, axes=gen.axes_arg(c["axes"], c["form"]))
    axes = gen.norm_axes(c["axes"], a.ndim)
    check(y, x, a, c["mode"], axes, [tuple(w) for w in c["w"]["each"]], c["cv"]["each"], c["ev"]["each"], c["sl"]["each"],
          f"{c['mode']} axes={c['axes']}")
    return max(max(w) for w in c["w"]["each"]) > 0 and len(np.unique(a)) > 1, [
        "mode=" + c["mode"], "dtype=" + c["x"]["dtype"], "axes=%d" % len(axes), "w=" + c["w"]["k"], "cv=" + c["cv"]["k"],
        "ev=" + c["ev"]["k"], "sl=" + c["sl"]["k"]]


@st.composite
def long(draw):
    mode = draw(st.sampled_from(PMODES))
    n = draw(st.integers(1, 300))
    return {"mode": mode, "n": n, "b": draw(st.integers(0, 400)), "a": draw(st.integers(0, 400)), "s": draw(gen.SEEDS),
            "sl": [draw(st.one_of(st.none(), st.integers(1, 330))) for _ in range(2)],
            "v": [draw(gen.NUM), draw(gen.NUM)], "dt": draw(st.sampled_from(("f64", "f32")))}


def run_long(c):
    a = gen.values([c["n"]], c["dt"], {"k": "normal", "s": c["s"]})
    x = torch.from_numpy(a.copy())
    v = tuple(c["v"])
    p = call(Padder, (c["b"], c["a"]), mode=c["mode"], constant_values=v, end_values=v, stat_length=tuple(c["sl"]))
    y = call(p.forward, x, axes=0)
    if c["b"] + c["a"]:
        check(y, x, a, c["mode"], [0], [(c["b"], c["a"])], [v], [v], [tuple(c["sl"])], c["mode"] + " long")
    return c["b"] + c["a"] > 0 and c["n"] > 1, ["mode=" + c["mode"]]


@st.composite
def huge(draw):
    mode = draw(st.sampled_from(PMODES))
    shape = list(draw(gen.huge_shapes(1, 3)))
    axis = draw(st.integers(0, len(shape) - 1))
    n, rest = shape[axis], int(np.prod(shape)) // shape[axis]
    room = max(1, 60000 // rest)
    width = st.one_of(st.integers(0, 3), st.sampled_from((n - 1, n + 1, 128, 256, 1024, 4096, 32768)), st.integers(0, room))
    dts = ("f64", "f32") if mode in ("linear_ramp", "mean") else ("f64", "f32", "i64", "i32", "i16")
    dt = draw(st.sampled_from(dts))
    num = st.sampled_from((-3, 0, 2, 7)) if dt[0] == "i" else gen.NUM
    return {"mode": mode, "x": {"shape": shape, "dtype": dt, "fill": {"k": draw(st.sampled_from(("int", "normal") if dt[0] == "f" else ("int",))), "s": draw(gen.SEEDS)}},
            "axis": axis, "b": min(room, draw(width)), "a": min(room, draw(width)), "v": [draw(num), draw(num)],
            "sl": [draw(st.one_of(st.none(), st.integers(1, n + 2), st.integers(1, 9))) for _ in range(2)]}


def run_huge(c):
    x, a = gen.make(dict(c["x"], layout="c"))
    v = tuple(c["v"])
    p = call(Padder, (c["b"], c["a"]), mode=c["mode"], constant_values=v, end_values=v, stat_length=tuple(c["sl"]))
    y = call(p.forward, x, axes=c["axis"])
    if c["b"] + c["a"]:
        check(y, x, a, c["mode"], [c["axis"]], [(c["b"], c["a"])], [v], [v], [tuple(c["sl"])], c["mode"] + " huge")
    return c["b"] + c["a"] > 0 and a.shape[c["axis"]] > 1, ["mode=" + c["mode"], "dtype=" + c["x"]["dtype"]]


TESTS = [
    Test("box", run_box, enum=box),
    Test("random", run_rand, strategy=rand(), quick=8000),
    Test("long", run_long, strategy=long(), quick=3000),
    Test("huge", run_huge, strategy=huge(), quick=160),
]
