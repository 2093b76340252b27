"""P22 poly1d"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.misc import poly1d

from lib import cmp, gen
from lib.core import Test, call

ID = "P22"
RULE = ("one case = one polynomial evaluated on one tensor, with its gradient; non-trivial = degree >= 2 with a nonzero leading "
        "coefficient on a varying tensor")
ASSUMPTIONS = ["floating x", "0-d x meets tensor coefficients of its own dtype only", "the gradient is compared for degree >= 1"]

COEF = st.one_of(st.integers(-4, 4), st.sampled_from([0, 0, 0.5, -1.25, 2.75, -0.125]))


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1)) if big == "huge" else draw(gen.shapes(1, 3, 1, 500, 20000)) if big else draw(gen.shapes(0, 5, 1, 5, 200)) if draw(st.integers(0, 9)) else draw(st.sampled_from([[0], [2, 0], []]))
    d = draw(st.integers(0, 24 if big else 9))
    if not big and draw(st.integers(0, 7)) == 0:
        d = draw(st.integers(10, 160))
    return {"x": draw(gen.tensors(shape, kinds=("normal", "unit", "int", "const"), grad=False)), "p": draw(st.lists(COEF, min_size=d + 1, max_size=d + 1)),
            "form": draw(st.sampled_from(("list", "tuple", "np", "torch", "ints"))), "grad": draw(st.booleans())}


def run_rand(c):
    p = [int(round(v)) for v in c["p"]] if c["form"] == "ints" else c["p"]
    arg = gen.container(p, "tuple" if c["form"] == "ints" else c["form"])
    x, a = gen.make(c["x"])
    if torch.is_tensor(arg) and a.ndim == 0:
        arg = arg.to(x.dtype)  # 0-d operands promote to the wider dtype
    if c["grad"]:
        x.requires_grad_(True)
    keep = x.detach().clone()
    y = call(poly1d, x, arg)
    v = a.astype(np.float64)
    n = len(p)
    want = np.zeros_like(v)
    scale = np.zeros_like(v)
    for i, w in enumerate(p):
        want += float(w) * v ** (n - 1 - i)
        scale += abs(float(w)) * np.abs(v) ** (n - 1 - i)
    if np.any(scale > (1e30 if c["x"]["dtype"] == "f32" else 1e250)):
        return False, ["overflows"]
    what = f"poly1d(p={p!r} as {c['form']})"
    cmp.close(y, want, what, dtype=x.dtype, scale=np.maximum(scale, 1e-30), ulp=16 + 4 * n, elementwise=True)
    cmp.equal(x, keep.numpy(), what + ": x afterwards")
    cmp.is_true([float(q) for q in arg] == [float(q) for q in p], what + ": p afterwards")
    if c["grad"] and n > 1:
        cmp.is_true(y.requires_grad, what + ": result is not differentiable")
        g, = call(torch.autograd.grad, y.sum(), x)
        dw, ds = np.zeros_like(v), np.zeros_like(v)
        for i, w in enumerate(p[:-1]):
            k = n - 1 - i
            dw += float(w) * k * v ** (k - 1)
            ds += abs(float(w)) * k * np.abs(v) ** (k - 1)
        cmp.close(g, dw, what + ": gradient", scale=np.maximum(ds, 1e-30), ulp=32 + 8 * n, elementwise=True)
    return n > 2 and p[0] != 0 and len(np.unique(a)) > 1, ["deg=%d" % (n - 1), c["form"], c["x"]["dtype"], "nd=%d" % a.ndim,
                                                         "grad" if c["grad"] else "nograd", "empty" if not a.size else "full"]


TESTS = [Test("poly", run_rand, strategy=rand(), quick=12000), Test("large", run_rand, strategy=rand(big=True), quick=300), Test("huge", run_rand, strategy=rand(big="huge"), quick=100)]
