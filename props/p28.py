"""P28 purity and layout independence"""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P28"
RULE = ("one case = one public operation on tensors in random memory layouts, with and without requires_grad, repeated on contiguous "
        "copies; non-trivial = at least one input is not contiguous or requires gradient")
ASSUMPTIONS = ["the module's own same padder may be re-widthed (documented); every other argument must stay as it was",
               "results for different layouts are compared to rounding accuracy, since summation order may depend on layout"]

TOL = {torch.float64: 1e-8, torch.float32: 4e-3}
NAMES = tuple(ops.OPS)


def snap(v):
    """a deep, comparable image of an argument"""
    if torch.is_tensor(v):
        return ("t", str(v.dtype), tuple(v.shape), v.stride(), v.requires_grad, v.detach().numpy().tobytes())
    if isinstance(v, np.ndarray):
        return ("a", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(snap(q) for q in v)
    if isinstance(v, dict):
        return tuple((k, snap(v[k])) for k in sorted(v))
    return (type(v).__name__, repr(v))


def storage(t):
    """bytes of the whole buffer behind a view"""
    return torch.empty(0, dtype=torch.uint8).set_(t.detach().untyped_storage()).numpy().tobytes()


@st.composite
def rand(draw):
    sp = ops.steady(draw(ops.strategy(NAMES, wide=True)))
    for t in sp["x"]:
        if draw(st.integers(0, 2)) == 0:
            t["grad"] = True
    return {"sp": sp, "form": draw(st.sampled_from(("list", "tuple", "np", "neg")))}


def materialise(sp, plain):
    out = []
    for t in sp["x"]:
        if plain:
            a = gen.make(t)[1]
            out.append(torch.from_numpy(np.ascontiguousarray(a).reshape(a.shape).copy()))
        else:
            out.append(gen.make(t)[0])
    return out


def evaluate(sp, tensors, form):
    inst = call(ops.build, sp)
    before = [snap(v) for v in inst.owned]
    ts = [(snap(t), storage(t), t._version) for t in tensors]
    what = f"{sp['op']} {sp['cfg']}"[:500]
    res = call(inst, tensors, form=form)
    for k, (t, (s, b, ver)) in enumerate(zip(tensors, ts)):
        if snap(t) != s:
            raise Violation(f"{what}: input {k} was modified")
        if storage(t) != b:
            raise Violation(f"{what}: memory around the view passed as input {k} was modified")
        if t._version != ver:
            raise Violation(f"{what}: input {k} was written to in place")
    for v, s in inst.passed:
        if snap(v) != snap(s):
            raise Violation(f"{what}: the axes argument {s!r} was modified: now {v!r}")
    for k, (v, s) in enumerate(zip(inst.owned, before)):
        if snap(v) != s:
            raise Violation(f"{what}: argument {k} passed to the constructor was modified: now {v!r}"[:600])
    return [t for t, _ in res], what


def run_rand(c):
    sp = c["sp"]
    ts = materialise(sp, False)
    got, what = evaluate(sp, ts, c["form"])
    plain = materialise(sp, True)
    ref, _ = evaluate(sp, plain, c["form"])
    cmp.is_true(len(got) == len(ref), what + ": number of results")
    dt = ts[0].dtype
    for y, r in zip(got, ref):
        if sp["op"] != "describe":
            cmp.same_dtype(y, dt, what)
        big = max([1.0] + [float(t.detach().abs().max()) for t in plain if t.numel()])
        cmp.close(y, r.detach().numpy(), f"{what}: layouts {[t.get('layout') for t in sp['x']]} against contiguous",
                  ulp=0, atol=ops.slack(sp) * TOL[dt] * max(big, float(r.detach().abs().nan_to_num(0, 0, 0).max()) if r.numel() else 0.0))
    # a second call on the same tensors gives the same result
    again, _ = evaluate(sp, ts, c["form"])
    for y, r in zip(again, got):
        cmp.equal(y, r.detach().numpy(), what + ": repeated")
    odd = any(not t.is_contiguous() for t in ts)
    grad = any(t.requires_grad for t in ts)
    return odd or grad, ["op=" + sp["op"], "strided" if odd else "contiguous", "grad" if grad else "nograd", sp["x"][0]["dtype"]]


@st.composite
def ints(draw):
    sp = draw(ops.strategy(("pad", "bayer", "outer", "poly1d"), dtypes=("i64", "i32")))
    if sp["op"] == "pad":
        ok = lambda m: m if m in ("zeros", "replicate", "smooth", "circular", "periodize", "symmetric", "reflect", "antisymmetric", "odd_reflect",
                                  "odd_symmetric", "maximum", "minimum", "median") else "replicate"
        m = sp["cfg"]["mode"]
        sp["cfg"]["mode"] = [ok(q) for q in m] if isinstance(m, list) else ok(m)
    if sp["op"] == "poly1d":
        sp["cfg"] = {"p": [int(round(q)) for q in sp["cfg"]["p"]], "form": "tuple"}
    return {"sp": sp, "form": draw(st.sampled_from(("list", "tuple", "np", "neg")))}


def run_ints(c):
    sp = c["sp"]
    ts = materialise(sp, False)
    got, what = evaluate(sp, ts, c["form"])
    ref, _ = evaluate(sp, materialise(sp, True), c["form"])
    for y, r in zip(got, ref):
        cmp.equal(y, r.numpy(), what + ": against contiguous", dtype=r.dtype)
    odd = any(not t.is_contiguous() for t in ts)
    return odd, ["op=" + sp["op"], "strided" if odd else "contiguous", sp["x"][0]["dtype"]]


TESTS = [Test("purity", run_rand, strategy=rand(), quick=8000), Test("integers", run_ints, strategy=ints(), quick=3000)]
