"""P24 outer, describe, pixels_per_degree"""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree
from torchimage.misc import describe, outer

from lib import cmp, gen
from lib.core import Test, Violation, call

ID = "P24"
RULE = ("one case = one outer product, one described tensor or one display geometry; non-trivial = both factors have several distinct "
        "values / at least five distinct values / a display that is not square")
ASSUMPTIONS = ["describe: floating, non-empty, finite tensors; at least two elements for the standard deviation"]


@st.composite
def r_outer(draw):
    dt = draw(st.sampled_from((("f64",) * 2, ("f32",) * 2, ("f64",) * 2, ("i64",) * 2)))
    u = draw(gen.tensors(draw(gen.shapes(0, 3, 1, 4, 30)) if draw(st.integers(0, 19)) else [draw(st.integers(30, 400))], dtypes=dt[:1], kinds=("normal", "int", "seq")))
    v = draw(gen.tensors(draw(gen.shapes(0, 3, 1, 4, 30)) if draw(st.integers(0, 19)) else [draw(st.integers(30, 400))], dtypes=dt[1:], kinds=("normal", "int", "seq")))
    return {"u": u, "v": v, "np": draw(st.integers(0, 3)) == 0}


@st.composite
def r_outer_huge(draw):
    dt = draw(st.sampled_from(("f64", "f32", "i64")))
    n = draw(st.sampled_from((3, 40, 300, 2000, 20000, 70000)))
    m = max(1, draw(st.integers(0, 3)) + draw(st.sampled_from((1, 16, 128, 1024))) % max(2, 120000 // n))
    u, v = draw(gen.huge_shapes(1, 3, max_numel=n)), draw(gen.huge_shapes(1, 2, max_numel=m))
    if draw(st.booleans()):
        u, v = v, u
    t = lambda sh: {"shape": list(sh), "dtype": dt, "fill": {"k": draw(st.sampled_from(("int", "seq"))), "s": draw(gen.SEEDS)}, "layout": "c"}
    return {"u": t(u), "v": t(v), "np": draw(st.integers(0, 3)) == 0}


def run_outer(c):
    (u, a), (v, b) = gen.make(c["u"]), gen.make(c["v"])
    if c["np"]:
        u, v = a.copy(), b.copy()
    w = call(outer, u, v)
    what = f"outer of shapes {a.shape}, {b.shape} ({'numpy' if c['np'] else 'torch'})"
    want = np.multiply.outer(a, b)
    if c["np"]:
        w = torch.from_numpy(np.array(w))
    cmp.equal(w, want, what, dtype=gen.td(c["u"]["dtype"]))
    for t, r, n in ((u, a, "u"), (v, b, "v")):
        cmp.equal(t if torch.is_tensor(t) else torch.from_numpy(np.asarray(t)), r, f"{what}: {n} afterwards")
    return len(np.unique(a)) > 1 and len(np.unique(b)) > 1, ["nd=%d+%d" % (a.ndim, b.ndim), "np" if c["np"] else "torch", c["u"]["dtype"]]


@st.composite
def r_describe(draw):
    return {"x": draw(gen.tensors(draw(gen.shapes(0, 4, 1, 9, 200)) if draw(st.integers(0, 9)) else draw(st.one_of(gen.shapes(1, 2, 1, 400, 30000), gen.huge_shapes(1, 3, max_numel=150000))), kinds=("normal", "int", "unit", "big", "tiny", "seq", "const")))}


KEYS = ("mean", "std", "min", "25%", "50%", "75%", "max")


def run_describe(c):
    x, a = gen.make(c["x"])
    d = call(describe, x)
    what = f"describe of shape {a.shape}"
    cmp.same(sorted(d), sorted(KEYS), what + ": keys")
    v = np.sort(a.astype(np.float64).ravel())
    n = v.size

    def pct(q):
        h = q * (n - 1)
        i = int(math.floor(h))
        return v[i] + (h - i) * (v[min(i + 1, n - 1)] - v[i])
    mean = v.sum() / n
    want = {"mean": mean, "min": v[0], "max": v[-1], "25%": pct(0.25), "50%": pct(0.5), "75%": pct(0.75)}
    eps = cmp.EPS[x.dtype]
    tol = 64 * eps * (np.abs(v).max() + 1e-300)
    if n > 1:
        want["std"] = math.sqrt(((v - mean) ** 2).sum() / (n - 1))
    for k in KEYS:
        if not isinstance(d[k], float):
            raise Violation(f"{what}: {k} is a {type(d[k]).__name__}, not a float")
        if k not in want:
            continue
        t = 0.0 if k in ("min", "max") else tol * (1 + n / 128) if k in ("mean", "std") else tol
        cmp.margin(abs(d[k] - want[k]), t, what + k)
        if not abs(d[k] - want[k]) <= t:
            raise Violation(f"{what}: {k} is {d[k]!r}, expected {want[k]!r}")
    cmp.equal(x, a, what + ": x afterwards")
    return len(np.unique(v)) >= 5, ["nd=%d" % a.ndim, c["x"]["dtype"], c["x"]["fill"]["k"], "n=%s" % ("1" if n == 1 else "2-9" if n < 10 else "10+")]


@st.composite
def r_ppd(draw):
    return {"d": draw(st.one_of(st.floats(20, 3000), st.integers(20, 3000))), "h": draw(st.integers(1, 5000)), "w": draw(st.integers(1, 5000)),
            "v": draw(st.one_of(st.floats(0.02, 20), st.integers(1, 20))), "k": draw(st.integers(2, 7))}


def run_ppd(c):
    d, h, w, v, k = (c[i] for i in "dhwvk")
    got = call(pixels_per_degree, d, h, w, v)
    what = f"pixels_per_degree({d}, {h}, {w}, {v})"
    pitch = d / math.hypot(h, w)  # millimetres per square pixel
    angle = 2 * math.atan2(h * pitch / 2, v * 1000)
    want = h / (angle * 180 / math.pi)

    def near(x, y, t):
        if not abs(x - y) <= 1e-9 * abs(y):
            raise Violation(f"{what}: {t} is {x!r}, expected {y!r}")
    near(got, want, "value")
    near(call(pixels_per_degree, d, h * k, w * k, v), got * k, f"value at {k} times the resolution")
    near(call(pixels_per_degree, d * k, h, w, v * k), got, f"value for {k} times the size and distance")
    return h != w, ["landscape" if w > h else "portrait" if h > w else "square", "near" if v < 1 else "far"]


TESTS = [Test("outer", run_outer, strategy=r_outer(), quick=6000), Test("describe", run_describe, strategy=r_describe(), quick=5000),
         Test("outer_huge", run_outer, strategy=r_outer_huge(), quick=60),
         Test("ppd", run_ppd, strategy=r_ppd(), quick=5000)]
