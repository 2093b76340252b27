"""P33 Gaussian edge losses"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.contrib.edge_loss import GaussianEdgeLoss, WeightedDiv, WeightedMul, WeightedSum

from lib import cmp, gen, padders, ref
from lib.core import Test, Violation, call

ID = "P33"
RULE = "one case = the four losses on one pair of (n, c, h, w) images; non-trivial = the images differ and both components vary"
ASSUMPTIONS = ["WeightedDiv is compared where no target component is near zero relative to rounding (the comparison carries an error bound)"]


@st.composite
def rand(draw):
    shape = [draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 9)), draw(st.integers(1, 9))]
    dt = draw(st.sampled_from(("f64", "f64", "f32")))
    kinds = ("normal", "int", "unit", "seq")
    return {"x": draw(gen.tensors(shape, dtypes=(dt,), kinds=kinds)), "y": draw(gen.tensors(shape, dtypes=(dt,), kinds=kinds)), "k": draw(st.integers(1, 9)),
            "s": draw(st.sampled_from([0.5, 0.8, 1, 1.5, 2.5])), "order": draw(st.sampled_from([1, 1, 2, 3, 0]))}


def comps(a, c):
    e, s = list(ref.gauss_kernel(c["k"], c["s"], c["order"])), list(ref.gauss_kernel(c["k"], c["s"], 0))
    s = [v / sum(s) for v in s]
    pad = {"form": "str", "mode": "reflect"}
    out, big = [], 0.0
    for ax, other in ((2, 3), (3, 2)):
        v, b1 = padders.filt(a, [ax], [e], pad)
        v, b2 = padders.filt(v, [other], [s], pad)
        out.append(v)
        big = max(big, b1, b2)
    return np.concatenate(out, axis=1), big


def run_rand(c):
    x, a = gen.make(c["x"])
    y, b = gen.make(c["y"])
    eps = cmp.EPS[x.dtype] * 256
    (p, b1), (t, b2) = comps(a, c), comps(b, c)
    ep, et = eps * max(b1, 1e-300), eps * max(b2, 1e-300)
    args = (c["k"], c["s"], c["order"])
    what = f"(kernel_size={c['k']}, sigma={c['s']}, order={c['order']}) of shape {a.shape}"
    d = np.abs(t - p)
    n = d.size

    def check(cls, want, tol, u=x, v=y):
        y_ = call(call(cls, *args).forward, u, v)
        cmp.shape_is(y_, (), cls.__name__ + what)
        cmp.same_dtype(y_, x.dtype, cls.__name__ + what)
        got = float(y_.detach())
        cmp.margin(abs(got - want), tol + (64 + n) * cmp.EPS[x.dtype] * abs(want), cls.__name__ + what)
        if not abs(got - want) <= tol + (64 + n) * cmp.EPS[x.dtype] * abs(want):
            raise Violation(f"{cls.__name__}{what}: {got!r}, expected {want!r} (tolerance {tol:.3g})")
        return got
    check(GaussianEdgeLoss, d.mean(), ep + et)
    check(GaussianEdgeLoss, d.mean(), ep + et, y, x)
    check(WeightedMul, (d * t).mean(), float(np.mean((ep + et) * (np.abs(t) + et) + d * et) + (64 + n) * cmp.EPS[x.dtype] * np.mean(np.abs(d * t))))
    ws = np.abs(np.abs(t).mean(axis=(2, 3)) - np.abs(p).mean(axis=(2, 3))).mean()
    sums = (64 + n) * cmp.EPS[x.dtype] * float(np.abs(t).mean() + np.abs(p).mean())
    check(WeightedSum, ws, ep + et + sums)
    check(WeightedSum, ws, ep + et + sums, y, x)
    low = np.abs(t) - et
    div = bool(np.all(low > 0))
    if div:
        with np.errstate(all="ignore"):
            q = d / t
            tol = float(np.mean((ep + et) / low + d * et / (low * low)))
        if np.isfinite(tol) and tol < 1e6:
            check(WeightedDiv, q.mean(), tol + (64 + n) * cmp.EPS[x.dtype] * float(np.mean(np.abs(q))))
        else:
            div = False
    # zero on equal images, exactly
    for cls in (GaussianEdgeLoss, WeightedSum, WeightedMul):
        z = call(call(cls, *args).forward, y, torch.from_numpy(b.copy()) if y.is_contiguous() else y)
        cmp.is_true(float(z.detach()) == 0.0, f"{cls.__name__}{what}: {float(z.detach())} on equal images")
    f = call(GaussianEdgeLoss, *args)
    r = call(f.forward, x, y)
    if float(r.detach()) < 0:
        raise Violation(f"GaussianEdgeLoss{what} is negative")
    return bool(np.any(a != b)) and float(np.ptp(t)) > 1e-9 and float(np.ptp(p)) > 1e-9, ["order=%d" % c["order"], "k=%d" % c["k"], "div" if div else "nodiv", c["x"]["dtype"]]


@st.composite
def huge(draw):
    n, ch = draw(st.integers(1, 40)), draw(st.integers(1, 5))
    h, w = draw(gen.huge_shapes(2, 2, max_numel=max(4, 40000 // (n * ch))))
    t = lambda: {"shape": [n, ch, h, w], "dtype": "f64", "fill": {"k": draw(st.sampled_from(("normal", "unit"))), "s": draw(gen.SEEDS)}, "layout": "c"}
    return {"x": t(), "y": t(), "k": draw(st.sampled_from((1, 3, 5, 11, 31))), "s": draw(st.sampled_from([0.5, 1, 2.5, 5])), "order": draw(st.sampled_from([1, 2, 0]))}


TESTS = [Test("losses", run_rand, strategy=rand(), quick=5000), Test("huge", run_rand, strategy=huge(), quick=60)]
