"""P03 N-D padding, right-justified"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.padding import Padder

from lib import cmp, gen, ref
from lib.core import Test, Violation, call, rejects

ID = "P03"
RULE = ("one case = a padder with scalar or per-axis entries applied to a list of distinct axes of a tensor; non-trivial = "
        "at least two axes are really padded, or entries and axes differ in number, or a callable / empty mode is used")
ASSUMPTIONS = ["axes distinct; periodize only with a non-zero width; values small enough that integer types do not overflow"]

MODES = gen.VALUE_MODES


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1, 15000)) if big == "huge" else draw(gen.shapes(1, 4, 1, 70, 3000)) if big else draw(gen.shapes(1, 6, 1, 5, 150))
    nd = len(shape)
    axes = draw(gen.axes_of(nd, 1, 5))
    m = draw(st.integers(1, 6))          # entries of the padder
    hi = 6 if big == "huge" else 40 if big else 5
    width = st.tuples(st.integers(0, hi), st.integers(0, hi)).map(list)
    per = lambda item: draw(st.lists(item, min_size=m, max_size=m)) if draw(st.booleans()) else draw(item)
    modes = per(st.sampled_from(MODES + ("empty", "callable")))
    w = per(width)
    flt = draw(st.booleans())
    x = draw(gen.tensors(shape, ("f64", "f32") if flt else ("f64",), ("int", "seq", "normal")))
    case = {"x": x, "axes": axes, "modes": modes, "w": w,
            "cv": per(st.tuples(gen.NUM, gen.NUM).map(list)), "ev": per(st.tuples(gen.NUM, gen.NUM).map(list)),
            "sl": per(st.tuples(st.one_of(st.none(), st.integers(1, 6)), st.one_of(st.none(), st.integers(1, 6))).map(list)),
            "form": draw(gen.AXFORM), "i": draw(st.integers(-m, m - 1)), "spell": draw(st.integers(0, 3))}
    # periodize needs a non-zero width
    ws = w if w and isinstance(w[0], list) else [w] * m
    ms = modes if isinstance(modes, list) else [modes] * m
    fixed = [[1, 0] if (q == "periodize" and not any(v)) else v for v, q in zip(ws, ms)]
    if fixed != ws:
        case["w"] = fixed
    return case


def lst(p, depth=1):
    return isinstance(p, list) and p and isinstance(p[0], list)


def tup(p):
    return [tuple(q) for q in p] if lst(p) else tuple(p)


def checker(calls):
    def fill(x, idx, dim):
        """replicates 3 * border + 1 to tell it from every built-in rule"""
        calls.append((tuple(idx), dim))
        head, tail = idx[dim].start, idx[dim].stop
        pre, post = list(idx), list(idx)
        if head > 0:
            src = list(idx)
            src[dim] = slice(head, head + 1)
            pre[dim] = slice(0, head)
            x[tuple(pre)] = 3 * x[tuple(src)] + 1
        if tail < x.shape[dim]:
            src = list(idx)
            src[dim] = slice(tail - 1, tail)
            post[dim] = slice(tail, None)
            x[tuple(post)] = 3 * x[tuple(src)] + 1
    return fill


def ref_entry(a, ax, w, mode, cv, ev, sl):
    if mode == "callable" or mode == "empty":
        x = np.moveaxis(a, ax, 0)
        n = x.shape[0]
        f = (lambda r: 3 * r.astype(np.float64) + 1) if mode == "callable" else (lambda r: np.full_like(r, np.nan, dtype=np.float64))
        out = np.concatenate([np.repeat(f(x[:1]), w[0], axis=0), x, np.repeat(f(x[n - 1:]), w[1], axis=0)], axis=0)
        return np.moveaxis(out, 0, ax)
    return ref.pad_1d(a, ax, w[0], w[1], mode, cv, ev, sl)


def build(c, calls):
    one = lambda q: checker(calls) if q == "callable" else q
    modes = [one(q) for q in c["modes"]] if isinstance(c["modes"], list) else one(c["modes"])
    return call(Padder, tup(c["w"]), mode=modes, constant_values=tup(c["cv"]), end_values=tup(c["ev"]), stat_length=tup(c["sl"]))


def entries(c):
    """-> number of entries (0 = any number), and a function entry(i) for a negative index"""
    lens = [len(p) for p in (c["w"], c["cv"], c["ev"], c["sl"]) if lst(p)]
    if isinstance(c["modes"], list):
        lens.append(len(c["modes"]))
    m = lens[0] if lens else 0

    def entry(i):
        g = lambda p: tuple(p[i]) if lst(p) else tuple(p)
        md = c["modes"][i] if isinstance(c["modes"], list) else c["modes"]
        return g(c["w"]), md, g(c["cv"]), g(c["ev"]), g(c["sl"])
    return m, entry


def run_rand(c):
    x, a = gen.make(c["x"])
    calls = []
    p = build(c, calls)
    m, entry = entries(c)
    axes = gen.norm_axes(c["axes"], a.ndim)
    y = call(p.forward, x, axes=gen.axes_arg(c["axes"], c["form"]))
    k = len(axes) if m == 0 else min(m, len(axes))
    want = a.astype(np.float64)
    scale = float(np.abs(want).max())
    mask_axes = []
    done, empties = 0, 0
    n_callable = 0
    origin = [0] * a.ndim
    for i in range(-k, 0):
        w, md, cv, ev, sl = entry(i)
        if not any(w):
            continue
        done += 1
        origin[axes[i]] = w[0]
        n_callable += md == "callable"
        if md == "empty":
            empties += 1
            mask_axes.append((axes[i], w))
            want = ref_entry(want, axes[i], w, "empty", cv, ev, sl)
        else:
            want = ref_entry(want, axes[i], w, md, cv, ev, sl)
            scale = max(scale, float(np.nanmax(np.abs(want))) if want.size else 0)
    what = f"forward axes={c['axes']} modes={c['modes']} w={c['w']}"
    cmp.same_dtype(y, x.dtype, what)
    cmp.shape_is(y, want.shape, what)
    if empties:  # elements with a coordinate in an empty border are unspecified
        got = y.detach().clone()
        unspecified = np.zeros(want.shape, dtype=bool)
        for ax, w in mask_axes:
            sel = np.zeros(want.shape[ax], dtype=bool)
            sel[:w[0]] = True
            sel[want.shape[ax] - w[1]:] = True
            unspecified |= sel.reshape([-1 if d == ax else 1 for d in range(a.ndim)])
        got[torch.from_numpy(unspecified)] = 0
        want = np.where(unspecified, 0.0, want)
        y = got
    if np.isnan(want).any():
        raise RuntimeError("reference produced nan")
    cmp.close(y, want, what, ulp=2000, scale=scale)
    idx = tuple(slice(o, o + s) for o, s in zip(origin, a.shape))
    cmp.equal(y[idx], a, what + ": original samples")
    # user functions: called once per axis padded by them, with that axis and a slice of the filled region
    if n_callable:
        called = [d for _, d in calls]
        exp = [axes[i] for i in range(-k, 0) if entry(i)[1] == "callable" and any(entry(i)[0])]
        if [d % a.ndim for d in called] != exp:
            raise Violation(f"{what}: user function called for dims {called}, expected {exp}")
    # entry i alone through pad_axis
    i = c["i"] if m else 0
    if m and not -m <= i < m:
        i = -1
    w, md, cv, ev, sl = entry(i)
    if md != "empty":
        ax = c["axes"][0]
        z = call(p.pad_axis, x, i, ax)
        wz = ref_entry(a.astype(np.float64), axes[0], w, md, cv, ev, sl) if any(w) else a
        cmp.same_dtype(z, x.dtype, "pad_axis")
        cmp.close(z, wz, f"pad_axis i={i} axis={ax}", ulp=2000, scale=float(np.abs(a).max()))
    labels = ["padded=%d" % min(done, 3), "m<axes" if m and m < len(axes) else "m>axes" if m > len(axes) else "m=axes" if m else "item"]
    if empties:
        labels.append("empty")
    if n_callable:
        labels.append("callable")
    if axes != sorted(axes):
        labels.append("unsorted")
    return done >= 2 or (m and m != len(axes) and done > 0) or empties > 0 or n_callable > 0, labels


@st.composite
def notation(draw):
    shape = draw(gen.shapes(1, 4, 1, 5, 100))
    nd = len(shape)
    kind = draw(st.sampled_from(("none", "slice", "int", "default", "nonpos")))
    s = [draw(st.one_of(st.none(), st.integers(-nd, nd))) for _ in range(2)] + [draw(st.sampled_from((None, 1, -1, 2)))]
    return {"x": draw(gen.tensors(shape, ("f64",), ("seq", "int"))), "kind": kind, "s": s,
            "ax": draw(st.integers(-nd, nd - 1)), "mode": draw(st.sampled_from(MODES)),
            "w": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(1, 4)).map(list), min_size=1, max_size=4)),
            "item": draw(st.booleans())}


def run_notation(c):
    x, a = gen.make(c["x"])
    nd = a.ndim
    every = list(range(nd))
    w = tuple(c["w"][0]) if c["item"] else [tuple(q) for q in c["w"]]
    kw = {}
    if c["kind"] == "none":
        kw["axes"], axes = None, every
    elif c["kind"] == "slice":
        kw["axes"] = slice(*c["s"])
        axes = every[kw["axes"]]
    elif c["kind"] == "int":
        kw["axes"], axes = c["ax"], [c["ax"] % nd]
    elif c["kind"] == "default":
        axes = every[2:]
    else:
        kw["axes"], axes = [i - nd for i in every], every
    y = call(Padder(w, mode=c["mode"]).forward, x, **kw)
    want = a.astype(np.float64)
    k = len(axes) if c["item"] else min(len(axes), len(w))
    for i in range(-k, 0):
        ww = w if c["item"] else w[i]
        want = ref.pad_1d(want, axes[i], ww[0], ww[1], c["mode"])
    cmp.close(y, want, f"axes={kw.get('axes', 'default')} of {nd}", ulp=2000, scale=float(np.abs(a).max()))
    return k >= 1, ["kind=" + c["kind"], "k=%d" % k]


@st.composite
def defaults(draw):
    shape = draw(gen.shapes(1, 4, 1, 5, 100))
    return {"x": draw(gen.tensors(shape, ("f64", "f32", "i64"), ("seq", "int"))), "axes": draw(gen.axes_of(len(shape), 1)), "form": draw(gen.AXFORM),
            "w": [draw(st.integers(0, 5)), draw(st.integers(0, 5))], "s": draw(st.integers(1, 4)),
            "mode": draw(st.sampled_from(("constant", "linear_ramp", "maximum", "minimum", "median", "mean")))}


def run_defaults(c):
    """parameters that are left out: no padding, mode constant, constants and end values 0, whole-axis statistics"""
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    arg = gen.axes_arg(c["axes"], c["form"])
    what = f"defaults, axes={c['axes']}"
    cmp.equal(call(call(Padder).forward, x, axes=arg), a, "Padder() over " + what, dtype=x.dtype)
    w = tuple(c["w"])
    for nm, kw in (("Padder(w)", {}), ("Padder(w, mode='constant')", {"mode": "constant"})):
        want = a
        for ax in axes:
            want = ref.pad_1d(want, ax, w[0], w[1], "constant") if any(w) else want
        cmp.equal(call(call(Padder, w, **kw).forward, x, axes=arg), want, f"{nm} with w={w}, {what}", dtype=x.dtype)
    if x.dtype.is_floating_point:
        want = a.astype(np.float64)
        for ax in axes:
            want = ref.pad_1d(want, ax, w[0], w[1], c["mode"], (0, 0), (0, 0), (None, None)) if any(w) else want
        y = call(call(Padder, w, mode=c["mode"]).forward, x, axes=arg)
        cmp.close(y, want, f"Padder(w, mode={c['mode']!r}) with w={w}, {what}", ulp=2000, scale=float(np.abs(a).max()))
    # to_same of a padder with nothing but a mode; stride 1 left out
    k = c["s"] + 1
    same = call(Padder(mode="replicate").to_same, k)
    want = a
    for ax in axes:
        want = ref.pad_1d(want, ax, k - 1 - (k - 1) // 2, (k - 1) // 2, "replicate")
    cmp.equal(call(same.forward, x, axes=arg), want, f"Padder(mode='replicate').to_same({k}), {what}", dtype=x.dtype)
    z = torch.zeros((), dtype=torch.float64)
    rejects(Padder(1).forward, z, axes=None, what="padding a tensor without dimensions")
    rejects(Padder(1).forward, z, axes=0, what="padding a tensor without dimensions")
    # two-level specifications have no axis meaning
    deep = [[(1, 1), (2, 2)], [(0, 1), (1, 0)]]
    rejects(Padder, deep, what=f"Padder({deep})")
    rejects(Padder, 1, mode=[["zeros", "reflect"], ["zeros", "reflect"]], what="Padder with a 2-level list of modes")
    return any(w), ["mode=" + c["mode"], "axes=%d" % len(axes)]


TESTS = [
    Test("defaults", run_defaults, strategy=defaults(), quick=1500),
    Test("mixed", run_rand, strategy=rand(), quick=9000),
    Test("large", run_rand, strategy=rand(big=True), quick=800), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
    Test("notation", run_notation, strategy=notation(), quick=4000),
]
