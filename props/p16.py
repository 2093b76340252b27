"""P16 MSE and PSNR"""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.metrics import MSE, PSNR

from lib import cmp, gen
from lib.core import Test, call, rejects

ID = "P16"
RULE = ("one case = a pair of images under one reduction and axis choice, MSE and PSNR; non-trivial = the images differ and "
        "some but not all axes are reduced, or all are")
ASSUMPTIONS = ["max_value > 0, eps >= 0", "eps is negligible or resolvable at the dtype"]


@st.composite
def axes_form(draw, nd):
    """(what to pass, list of axes)"""
    k = draw(st.sampled_from(("none", "int", "tuple", "list", "slice", "np", "omit")))
    if k in ("none", "omit"):
        return {"k": k, "v": None}
    if k == "int":
        return {"k": k, "v": draw(st.integers(-nd, nd - 1))}
    if k == "slice":
        lo = draw(st.integers(-nd, nd - 1))
        if draw(st.integers(0, 7)) == 0:  # selects nothing
            return {"k": k, "v": draw(st.sampled_from(([nd, None], [nd + 2, None], [0, 0], [-1, -nd - 1])))}
        return {"k": k, "v": [lo, draw(st.one_of(st.none(), st.integers(lo % nd + 1, nd + 2)))]}
    return {"k": k, "v": draw(gen.axes_of(nd, draw(st.sampled_from((1, 1, 0)))))}


def axes_value(f, nd):
    k, v = f["k"], f["v"]
    if k in ("none", "omit"):
        return None, list(range(nd))
    if k == "int":
        return v, [v % nd]
    if k == "slice":
        s = slice(v[0], v[1])
        return s, list(range(nd))[s]
    return (tuple(v) if k == "tuple" else np.array(v, dtype=np.int64) if k == "np" else list(v)), [q % nd for q in v]


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 4, 1)) if big == "huge" else draw(gen.shapes(1, 4, 1, 300, 60000)) if big else draw(gen.shapes(1, 6, 1, 6, 300))
    kinds = ("normal", "int", "unit", "seq", "big")
    x = draw(gen.tensors(shape, kinds=kinds))
    y = draw(gen.tensors(shape, dtypes=(x["dtype"],), kinds=kinds))
    return {"x": x, "y": y, "rel": draw(st.sampled_from((None, None, None, "close", "part"))), "axes": draw(axes_form(len(shape))), "red": draw(st.sampled_from(("mean", "mean", "sum", "none", None))),
            "max": draw(st.one_of(st.none(), st.sampled_from([1, 255, 0.5, 1023.0, 3, 65535, 1e-3]))),
            "eps": draw(st.one_of(st.none(), st.just(0), st.sampled_from([1e-3, 0.5, 10.0])))}


def related(a, b, rel, s):
    """an image that differs from `a` by little, or in few places"""
    rng = np.random.default_rng(s)
    if rel == "part":
        d = np.where(rng.random(a.shape) < 0.1, b, a)
    else:
        d = a + (10.0 ** -int(rng.integers(3, 11)) * (np.abs(a).max() if a.size else 1) * rng.standard_normal(a.shape))
    return np.asarray(d, dtype=a.dtype).reshape(a.shape)


def run_rand(c):
    x, a = gen.make(c["x"])
    y, b = gen.make(c["y"])
    if c["rel"]:
        b = related(a, b, c["rel"], c["y"]["fill"]["s"])
        y = gen.tensor_of(b)
    nd = a.ndim
    arg, axes = axes_value(c["axes"], nd)
    kw = {} if c["axes"]["k"] == "omit" else {"reduce_axes": arg}
    red = c["red"] or "mean"
    rk = {} if c["red"] is None else {"reduction": c["red"]}
    d = (a.astype(np.float64) - b.astype(np.float64)) ** 2
    want = d.mean(axis=tuple(axes)) if red == "mean" else d.sum(axis=tuple(axes)) if red == "sum" else d
    what = f"{red} over {arg!r} of shape {a.shape}"
    mse = call(MSE, **rk)
    m = call(mse.forward, x, y, **kw)
    big = float(np.max(np.abs(a)) ** 2 + np.max(np.abs(b)) ** 2)
    n = float(np.prod([a.shape[q] for q in axes])) if red == "sum" else 1.0
    terms = max(1, d.size // max(1, want.size))  # a running sum may round terms / 2 units away
    cmp.close(m, want, "MSE " + what, dtype=x.dtype, scale=big * n, ulp=16 + terms / 2)
    # all terms are nonnegative: the error is relative
    cmp.close(m, want, "MSE " + what, dtype=x.dtype, elementwise=True, ulp=64 + terms / 2, atol=1e-30)
    cmp.close(call(mse.forward, y, x, **kw), m.detach().numpy(), "MSE symmetry " + what, dtype=x.dtype, scale=big * n, ulp=4 + terms)
    pk = {}
    if c["max"] is not None:
        pk["max_value"] = c["max"]
    if c["eps"] is not None:
        pk["eps"] = c["eps"]
    mx, eps = c["max"] or 1, c["eps"] or 0
    ps = call(PSNR, **pk, **rk)
    p = call(ps.forward, x, y, **kw)
    # logarithm of the mse as computed, to keep the comparison tight
    with np.errstate(divide="ignore"):
        wp = 20 * math.log10(mx) - 10 * np.log10(m.detach().numpy().astype(np.float64) + eps)
    cmp.close(p, wp, f"PSNR(max={mx}, eps={eps}) " + what, dtype=x.dtype, scale=100.0, ulp=64)
    same = np.abs(a.astype(np.float64) - b.astype(np.float64)).sum(axis=tuple(axes)) == 0 if red != "none" else a == b
    if eps == 0 and np.any(same):
        cmp.is_true(bool(np.all(np.isposinf(p.detach().numpy()[same]))), "PSNR is +inf on equal images")
    return bool(np.any(a != b)), ["red=" + red, "axes=" + c["axes"]["k"], "eps" if eps else "eps=0", "rel=%s" % c["rel"], "nd=%d" % nd,
                                  "all" if len(axes) == nd else "some" if axes else "no axes"]


@st.composite
def identical(draw):
    shape = draw(gen.shapes(1, 6, 1, 5, 200))
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "big"))), "axes": draw(axes_form(len(shape))), "where": draw(st.integers(0, 10 ** 6)),
            "delta": draw(st.sampled_from([0.5, -2.0, 1.0])), "shape2": draw(gen.shapes(1, 6, 1, 5, 200)),
            "bad": draw(st.sampled_from(("avg", "Mean", "", "max", "summed"))), "red": draw(st.sampled_from(("mean", "sum")))}


def run_identical(c):
    x, a = gen.make(c["x"])
    arg, axes = axes_value(c["axes"], a.ndim)
    zero = np.zeros([n for i, n in enumerate(a.shape) if i not in axes])
    y = torch.from_numpy(a.copy())
    ps, ms = PSNR(reduction=c["red"]), MSE(reduction=c["red"])
    cmp.equal(call(ms.forward, x, y, reduce_axes=arg), zero, "MSE of equal images")
    cmp.equal(call(ps.forward, x, y, reduce_axes=arg), np.full(zero.shape, np.inf), "PSNR of equal images")
    # one differing element makes exactly its own slot nonzero
    b = a.copy()
    i = np.unravel_index(c["where"] % a.size, a.shape)
    b[i] += c["delta"]
    slot = tuple(k for q, k in enumerate(i) if q not in axes)
    m = call(ms.forward, x, torch.from_numpy(b), reduce_axes=arg).detach().numpy()
    p = call(ps.forward, x, torch.from_numpy(b), reduce_axes=arg).detach().numpy()
    nz = np.zeros(m.shape, bool)
    nz[slot] = True
    cmp.is_true(bool(np.array_equal(m != 0, nz)), "MSE is nonzero exactly where the images differ")
    cmp.is_true(bool(np.array_equal(np.isposinf(p), ~nz)), "PSNR is infinite exactly where the images agree")
    if c["shape2"] != list(a.shape):
        z = torch.zeros(c["shape2"], dtype=x.dtype)
        rejects(MSE().forward, x, z, what=f"MSE of shapes {a.shape} and {c['shape2']}")
        rejects(PSNR().forward, x, z, what=f"PSNR of shapes {a.shape} and {c['shape2']}")
    one = torch.ones([1] + list(a.shape), dtype=x.dtype)
    rejects(MSE().forward, x, one, what="MSE of broadcastable but different shapes")
    for kw in ({}, {"reduce_axes": arg}):
        rejects(lambda: MSE(reduction=c["bad"]).forward(x, y, **kw), what=f"reduction {c['bad']!r} over {kw}")
        rejects(lambda: PSNR(reduction=c["bad"]).forward(x, y, **kw), what=f"reduction {c['bad']!r} over {kw}")
    return a.size > 1, ["axes=" + c["axes"]["k"]]


@st.composite
def empty(draw):
    shape = draw(gen.shapes(1, 5, 1, 5, 200))
    shape[draw(st.integers(0, len(shape) - 1))] = 0
    return {"shape": shape, "dtype": draw(st.sampled_from(("f64", "f32"))), "axes": draw(axes_form(len(shape))), "red": draw(st.sampled_from(("mean", "sum", "sum", "none", None)))}


def run_empty(c):
    """images without elements: nothing to sum is zero, nothing to average has no value"""
    a = np.zeros(c["shape"], dtype=gen.nd(c["dtype"]))
    arg, axes = axes_value(c["axes"], a.ndim)
    kw = {} if c["axes"]["k"] == "omit" else {"reduce_axes": arg}
    rk = {} if c["red"] is None else {"reduction": c["red"]}
    want = a if c["red"] == "none" else a.sum(axis=tuple(axes))
    what = f"{c['red']} over {arg!r} of shape {a.shape}"
    m = call(MSE(**rk).forward, torch.from_numpy(a), torch.from_numpy(a.copy()), **kw)
    p = call(PSNR(**rk).forward, torch.from_numpy(a), torch.from_numpy(a.copy()), **kw)
    for t, n in ((m, "MSE "), (p, "PSNR ")):
        cmp.shape_is(t, want.shape, n + what)
        cmp.same_dtype(t, gen.td(c["dtype"]), n + what)
    if c["red"] == "sum":
        cmp.equal(m, want, "MSE " + what)
        cmp.equal(p, np.full(want.shape, np.inf), "PSNR " + what)
    return want.size > 0, ["axes=" + c["axes"]["k"], "red=%s" % c["red"]]


TESTS = [
    Test("empty", run_empty, strategy=empty(), quick=1500),
    Test("random", run_rand, strategy=rand(), quick=9000),
    Test("large", run_rand, strategy=rand(big=True), quick=500), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
    Test("identical", run_identical, strategy=identical(), quick=3000),
]
