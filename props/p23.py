"""P23 safe_power"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.misc import safe_power

from lib import cmp, gen
from lib.core import Test, Violation, call

ID = "P23"
RULE = ("one case = one safe_power call on a broadcast pair; non-trivial = the pair mixes at least two of: positive base, negative base "
        "with fractional exponent, zero base with fractional exponent, integral exponent")
ASSUMPTIONS = ["zero bases are not paired with negative integral exponents, nor integer tensors with negative integers (torch.pow itself)",
               "exponent gradients are compared where the base is positive or the exponent fractional (elsewhere the definition is "
               "not differentiable in the exponent)", "where a 0-d tensor meets a tensor of another dtype the result may have either dtype"]

BASES = [-3, -2.5, -1, -0.5, -0.25, 0, 0, -0.0, 0.25, 0.5, 1, 2, 3.75]
EXPS = [-2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3, 2.25, 0.125, 4, 2.0000001, 0.99999, -1 - 2.0 ** -30, 3 + 2.0 ** -20, 1e-7, 7, 1 / 3]
TINY = [1e-8, -5e-13, 2e-7, -1e-10, 3e-9, 0, 0, 1, -2.5]
MILD = [v for v in EXPS if abs(v) <= 1.5]


@st.composite
def operand(draw, vals):
    kind = draw(st.sampled_from(("tensor", "tensor", "tensor", "scalar", "int")))
    if kind == "scalar":
        return {"k": "scalar", "v": draw(st.sampled_from(vals))}
    ints = [v for v in vals if float(v).is_integer()]
    if kind == "int" and draw(st.booleans()):
        return {"k": "scalar", "v": int(draw(st.sampled_from(ints)))}
    dt = "i64" if kind == "int" else draw(st.sampled_from(("f64", "f64", "f32")))
    shape = draw(st.sampled_from([[], [1], [4], [3, 4], [3, 1], [1, 4], [2, 3, 4], [2, 1, 1]]))
    n = int(np.prod(shape, dtype=int))
    pool = ints if dt == "i64" else vals
    if draw(st.integers(0, 3)) == 0:  # no special values at all
        pool = [v for v in pool if v != 0] or pool
    return {"k": "tensor", "dt": dt, "shape": shape, "v": draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n)), "grad": draw(st.booleans()),
            "layout": draw(gen.layouts(len(shape), expand=False))}


def realise(o):
    if o["k"] == "scalar":
        return o["v"], np.array(o["v"], dtype=np.float64)
    if "pool" in o:
        a = np.random.default_rng(o["s"]).choice(np.array(o["pool"], dtype=gen.nd(o["dt"])), size=o["shape"])
    else:
        a = np.array(o["v"], dtype=gen.nd(o["dt"])).reshape(o["shape"])
    return gen.tensor_of(a, o["layout"], o["grad"] and o["dt"] != "i64"), a.astype(np.float64)


def reduce_to(g, shape):
    g = g.sum(axis=tuple(range(g.ndim - len(shape))))
    for i, n in enumerate(shape):
        if n == 1 and g.shape[i] != 1:
            g = g.sum(axis=i, keepdims=True)
    return g


@st.composite
def rand(draw):
    return {"x": draw(operand(BASES)), "e": draw(operand(EXPS)), "eps": draw(st.sampled_from([None, None, 1e-6, 1e-3, 0.5, 0])), "s": draw(gen.SEEDS)}


def run_rand(c):
    x, xa = realise(c["x"])
    e, ea = realise(c["e"])
    eps = 1e-6 if c["eps"] is None else c["eps"]
    kw = {} if c["eps"] is None else {"epsilon": c["eps"]}
    try:
        X, E = np.broadcast_arrays(xa, ea)
    except ValueError:
        return False, ["not broadcastable"]
    tens = [t for t in (x, e) if torch.is_tensor(t)]
    out_dt = torch.result_type(x, e) if tens else (torch.get_default_dtype() if isinstance(x, float) or isinstance(e, float) else torch.int64)
    if out_dt == torch.float32:  # a Python number takes part with the precision of the result
        X = X if torch.is_tensor(x) else X.astype(np.float32).astype(np.float64)
        E = E if torch.is_tensor(e) else E.astype(np.float32).astype(np.float64)
    frac = np.floor(E) != E
    if np.any((X == 0) & ~frac & (E < 0)):
        return False, ["0 ** -n"]
    if not out_dt.is_floating_point and np.any(E < 0):
        return False, ["integer ** -n"]
    if eps == 0 and np.any((X == 0) & frac & (E < 0)):
        return False, ["0 ** -frac with epsilon 0"]
    with np.errstate(all="ignore"):
        base = np.where((X == 0) & frac, eps, np.where(frac, np.abs(X), X))
        sign = np.where((X < 0) & frac, -1.0, 1.0)
        want = sign * np.power(base, E)
    what = f"safe_power({c['x']}, {c['e']}, epsilon={c['eps']})"[:600]
    y = call(safe_power, x, e, **kw)
    if out_dt.is_floating_point:
        mixed0 = len({t.dtype for t in tens}) > 1 and any(t.ndim == 0 for t in tens)
        low = max(cmp.EPS.get(t.dtype, 0) for t in [y] + tens)
        cmp.is_true(y.dtype.is_floating_point, what + ": result is not floating")
        cmp.close(y, want, what, dtype=None if mixed0 else out_dt, ulp=64 * low / cmp.EPS[y.dtype], elementwise=True, atol=1e-30)
    else:
        cmp.equal(y, want.astype(np.int64), what, dtype=out_dt)
    for o, t, a in ((c["x"], x, xa), (c["e"], e, ea)):
        if torch.is_tensor(t):
            cmp.equal(t.to(torch.float64), a, what + ": argument afterwards")
    diff = [t for t in tens if t.requires_grad]
    if diff and out_dt.is_floating_point:
        w = np.random.Generator(np.random.PCG64(c["s"])).uniform(0.5, 1.5, size=want.shape)
        cmp.is_true(y.requires_grad, what + ": not differentiable")
        if low > 1e-10:
            w = w.astype(np.float32).astype(np.float64)
        gs = call(torch.autograd.grad, y, diff, grad_outputs=torch.from_numpy(np.asarray(w)).to(y.dtype))
        for t, g in zip(diff, gs):
            shape = tuple(t.shape)
            with np.errstate(all="ignore"):
                if t is x:
                    d = np.where(E == 0, 0.0, E * np.power(base, np.where(E == 0, 1.0, E - 1)))
                    ok = np.ones(want.shape, bool)
                    if eps == 0:
                        ok = ~((X == 0) & frac)
                else:
                    safe = np.where(base > 0, base, 1.0)
                    d = sign * np.power(safe, E) * np.log(safe)
                    ok = (X > 0) | (frac & (base > 0))
            wg = reduce_to(np.where(ok, d * w, 0.0), shape)
            mag = reduce_to(np.where(ok, np.abs(d * w), 0.0), shape)
            full = reduce_to(ok.astype(float), shape) == reduce_to(np.ones_like(w), shape)
            got = g.detach().numpy().astype(np.float64)
            if got.shape != wg.shape:
                raise Violation(f"{what}: gradient shape {got.shape}, expected {wg.shape}")
            tol = 256 * low * mag + 1e-30
            bad = full & ~(np.abs(got - wg) <= tol)
            if np.any(bad):
                i = tuple(int(q) for q in np.argwhere(bad)[0])
                raise Violation(f"{what}: gradient with respect to the {'base' if t is x else 'exponent'} at {i} is {got[i]!r}, expected {wg[i]!r}")
    kinds = [np.any((X > 0)), np.any((X < 0) & frac), np.any((X == 0) & frac), np.any(~frac)]
    return sum(map(bool, kinds)) >= 2, ["x=" + c["x"]["k"] + c["x"].get("dt", ""), "e=" + c["e"]["k"] + c["e"].get("dt", ""),
                                      "grad" if diff else "nograd", "neg^frac" if kinds[1] else "-", "zero^frac" if kinds[2] else "-"]


@st.composite
def tiny(draw):
    """bases smaller than epsilon that are not zero"""
    return {"x": draw(operand(TINY)), "e": draw(operand(MILD)), "eps": draw(st.sampled_from([None, None, 1e-6, 1e-3, 0.5])), "s": draw(gen.SEEDS)}


@st.composite
def huge(draw):
    shape = list(draw(gen.huge_shapes(1, 3, max_numel=70000)))
    small = [n if draw(st.booleans()) else 1 for n in shape][draw(st.integers(0, len(shape))):]

    def op(vals, sh):
        if sh is None:
            return {"k": "scalar", "v": draw(st.sampled_from(vals))}
        dt = draw(st.sampled_from(("f64", "f32")))
        pool = [v for v in vals if v != 0] if draw(st.integers(0, 3)) == 0 else vals
        if draw(st.integers(0, 3)) == 0:
            pool = [v for v in pool if v >= 0]
        return {"k": "tensor", "dt": dt, "shape": sh, "pool": pool, "s": draw(gen.SEEDS), "grad": draw(st.booleans()), "layout": draw(gen.layouts(len(sh), expand=False))}
    big, other = shape, draw(st.sampled_from((None, small, shape)))
    x, e = (big, other) if draw(st.integers(0, 3)) else (other if other else shape, big)
    return {"x": op(BASES, x), "e": op(EXPS, e), "eps": draw(st.sampled_from([None, 1e-3, 0.5])), "s": draw(gen.SEEDS)}


TESTS = [Test("tiny", run_rand, strategy=tiny(), quick=2500), Test("pow", run_rand, strategy=rand(), quick=16000), Test("huge", run_rand, strategy=huge(), quick=80)]
