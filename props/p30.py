"""P30 gradients"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.cfa import demosaic

from lib import cmp, gen, ops, ref
from lib.core import Test, Violation, call

ID = "P30"
RULE = ("one case = one operation back-propagated from a random cotangent and compared, along three directions per input and parameter, with Richardson-"
        "extrapolated central differences of the same operation; non-trivial = the finite differences agree with each other and the "
        "derivative is not zero")
ASSUMPTIONS = ["float64 (demosaic: float32, where it is piecewise linear)", "points where the two difference quotients disagree (kinks, "
               "vanishing denominators) are not judged, beyond the gradient being finite where the output is"]

NAMES = tuple(n for n, o in ops.OPS.items() if o.diff)


@st.composite
def rand(draw, names=NAMES):
    sp = draw(ops.strategy(names, dtypes=("f64",), numel=60))
    for t in sp["x"]:
        t["dtype"] = "f64"
        if t["layout"].startswith("expand"):
            t["layout"] = "c"
    if "dt" in sp["cfg"]:
        sp["cfg"]["dt"] = "f64"
    return {"sp": sp, "s": draw(gen.SEEDS)}


def run_rand(c):
    sp = c["sp"]
    inst = call(ops.build, sp)
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    arrs = ops.arrays(sp)
    params = list(inst.mod.parameters()) if isinstance(inst.mod, torch.nn.Module) else []
    nx = len(arrs)
    arrs += [p.detach().numpy().copy() for p in params]
    what = f"{sp['op']} axes={sp['axes']} {sp['cfg']}"[:500]

    def make(vals, grad=False):
        for p, v in zip(params, vals[nx:]):
            p.data.copy_(torch.from_numpy(v))
        return [gen.tensor_of(v, t["layout"], grad) for v, t in zip(vals, sp["x"])]
    leaves = make(arrs, True)
    outs = [t for t, _ in call(inst, leaves)]
    ys = [t.detach().numpy() for t in outs]
    if not all(np.isfinite(y).all() for y in ys):
        return False, ["op=" + sp["op"], "non-finite value"]
    ws = [rng.standard_normal(y.shape) for y in ys]
    for t in outs:
        cmp.is_true(t.requires_grad, what + ": result is cut off from its input")
    gs = call(torch.autograd.grad, outs, leaves + params, grad_outputs=[torch.from_numpy(np.asarray(w)) for w in ws], allow_unused=True)
    gs = [np.zeros_like(a) if g is None else g.detach().numpy() for g, a in zip(gs, arrs)]

    def f(vals):
        with torch.no_grad():
            r = call(inst, make(vals))
        # pairwise against the unperturbed value: keeps the sum small and accurate
        return sum(float(np.sum(w * (t.numpy() - y))) for (t, _), w, y in zip(r, ws, ys)), sum(float(np.sum(np.abs(w * t.numpy()))) for (t, _), w in zip(r, ws))
    judged = moved = 0
    # what rounding of the inputs alone does to the value
    shaken = max(abs(f([b * (1 + 4e-16 * rng.standard_normal(b.shape)) for b in arrs])[0]) for _ in range(2))
    if not np.isfinite(shaken):
        return False, ["op=" + sp["op"], "ill-conditioned"]
    for k, a in enumerate(arrs):
        fin = np.isfinite(gs[k]).all()
        for trial in range(3):
            if trial == 0:
                v = rng.standard_normal(a.shape)
            elif trial == 1:
                v = np.zeros(a.shape)
                v.ravel()[int(rng.integers(a.size))] = 1.0
            else:  # a border sample
                v = np.zeros(a.shape)
                v[tuple(int(rng.choice([0, n - 1])) for n in a.shape)] = 1.0
            d = []
            mag = 0.0
            for h in (2e-4, 1e-4, 5e-5):
                (p, m1), (q, m2) = f([b + h * v if i == k else b for i, b in enumerate(arrs)]), f([b - h * v if i == k else b for i, b in enumerate(arrs)])
                d.append((p - q) / (2 * h))
                mag = max(mag, m1, m2)
            if not all(np.isfinite(d)):
                continue
            r1, r2 = (4 * d[1] - d[0]) / 3, (4 * d[2] - d[1]) / 3
            noise = 1e-16 * mag * max(4.0, a.size ** 0.5) / 5e-5 * 8 + 2 * shaken / 5e-5
            tol = 1e-6 * (abs(r2) + abs(d[2])) + 10 * noise + 1e-9
            if abs(r1 - r2) > tol or abs(d[1] - d[2]) > 1e-3 * (abs(d[2]) + 1e-3) + 10 * noise:
                continue  # not smooth here
            if not fin:
                raise Violation(f"{what}: the gradient for input {k} (inputs, then parameters) is not finite although the function is smooth there")
            judged += 1
            got = float(np.sum(gs[k] * v))
            slack = tol + 20 * abs(r1 - r2) + 1e-9 * float(np.sum(np.abs(gs[k] * v)))
            if abs(got - r2) > slack:
                raise Violation(f"{what}: derivative of input {k} (inputs, then parameters) along direction {trial} is {got!r} by back-propagation, {r2!r} by differences")
            moved += abs(r2) > 1e-6
    return moved > 0, ["op=" + sp["op"], "judged=%d" % min(judged, 6)]


SMOOTH = ("edge", "edge", "mse", "mse", "ssim", "msssim", "poly1d", "power", "outer", "bayerconv", "edgeloss", "edgeloss", "pad", "pool", "laplace", "unsharp", "laststep", "anyconv", "bayer")


def run_second(c):
    """the gradient, itself differentiated, against differences of the gradient"""
    sp = c["sp"]
    inst = call(ops.build, sp)
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    arrs = ops.arrays(sp)
    params = list(inst.mod.parameters()) if isinstance(inst.mod, torch.nn.Module) else []
    nx = len(arrs)
    arrs += [p.detach().numpy().copy() for p in params]
    what = f"{sp['op']} axes={sp['axes']} {sp['cfg']}"[:500]
    vs = [torch.from_numpy(np.asarray(rng.standard_normal(a.shape))) for a in arrs]
    us = [rng.standard_normal(a.shape) for a in arrs]
    state = {}

    def slope(vals, again=False):
        """sum of gradient * v, as a tensor, with the leaves"""
        for p, v in zip(params, vals[nx:]):
            p.data.copy_(torch.from_numpy(v))
        leaves = [gen.tensor_of(v, t["layout"], True) for v, t in zip(vals, sp["x"])] + params
        outs = [t for t, _ in call(inst, leaves[:nx])]
        if "w" not in state:
            state["w"] = [torch.from_numpy(np.asarray(rng.standard_normal(tuple(t.shape)))) for t in outs]
        total = sum((t * w).sum() for t, w in zip(outs, state["w"]))
        gs = call(torch.autograd.grad, total, leaves, create_graph=again, allow_unused=True)
        z = sum((g * v).sum() for g, v in zip(gs, vs) if g is not None)
        mag = sum(float((g * v).abs().sum()) for g, v in zip(gs, vs) if g is not None)
        return z, mag, leaves
    z, mag, leaves = slope(arrs, True)
    if not torch.is_tensor(z) or not np.isfinite(mag):
        return False, ["op=" + sp["op"], "no finite gradient"]
    hs = [None] * len(leaves)
    if z.requires_grad:
        hs = call(torch.autograd.grad, z, leaves, allow_unused=True)
    got = sum(float((h.detach().numpy() * u).sum()) for h, u in zip(hs, us) if h is not None)
    scale = sum(float(np.abs(h.detach().numpy() * u).sum()) for h, u in zip(hs, us) if h is not None)
    d = []
    for h in (2e-4, 1e-4, 5e-5):
        p, m1, _ = slope([a + h * u for a, u in zip(arrs, us)])
        q, m2, _ = slope([a - h * u for a, u in zip(arrs, us)])
        d.append((float(p) - float(q)) / (2 * h))
        mag = max(mag, m1, m2)
    if not all(np.isfinite(d)) or not np.isfinite(scale):
        return False, ["op=" + sp["op"], "not smooth"]
    r1, r2 = (4 * d[1] - d[0]) / 3, (4 * d[2] - d[1]) / 3
    shaken = max(abs(float(slope([b * (1 + 4e-16 * rng.standard_normal(b.shape)) for b in arrs])[0]) - float(z)) for _ in range(2))
    if not np.isfinite(shaken):
        return False, ["op=" + sp["op"], "ill-conditioned"]
    noise = 1e-16 * mag * 30 / 5e-5 * 8 + 2 * shaken / 5e-5
    tol = 1e-5 * (abs(r2) + abs(d[2])) + 10 * noise + 1e-9
    if abs(r1 - r2) > tol or abs(d[1] - d[2]) > 1e-3 * (abs(d[2]) + 1e-3) + 10 * noise:
        return False, ["op=" + sp["op"], "not smooth"]
    if abs(got - r2) > tol + 20 * abs(r1 - r2) + 1e-9 * scale:
        raise Violation(f"{what}: second derivative {got!r} by back-propagation, {r2!r} by differences of the gradient")
    return abs(r2) > 1e-6, ["op=" + sp["op"], "curved" if abs(r2) > 1e-6 else "flat"]


@st.composite
def dem(draw):
    h, w = 2 * draw(st.integers(2, 5)), 2 * draw(st.integers(2, 5))
    return {"shape": draw(st.sampled_from([[], [1], [2]])) + [1, h, w], "al": draw(st.sampled_from(ref.ALIGN)), "s": draw(gen.SEEDS),
            "clamp": draw(st.sampled_from([1.0, 0.4, 0.52])), "unit": draw(st.booleans())}


def run_dem(c):
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    a = (0.5 + 0.05 * (2 * rng.random(c["shape"]) - 1)).astype(np.float32)
    v = (0.02 * (2 * rng.random(c["shape"]) - 1)).astype(np.float32)
    if c["unit"]:
        i = int(rng.integers(v.size))
        u = np.zeros_like(v)
        u.ravel()[i] = 0.02
        v = u
    x = torch.from_numpy(a.copy()).requires_grad_(True)
    y = call(demosaic, x, c["al"], clamp=c["clamp"])
    with torch.no_grad():
        p, q = call(demosaic, torch.from_numpy(a + v), c["al"], clamp=c["clamp"]).numpy(), call(demosaic, torch.from_numpy(a - v), c["al"], clamp=c["clamp"]).numpy()
    yd = y.detach().numpy()
    # outputs that stay strictly on one side of the clamp are linear between the two points
    free = (p < c["clamp"]) & (q < c["clamp"]) & (yd < c["clamp"] - 1e-4)
    cut = (p >= c["clamp"]) & (q >= c["clamp"]) & (yd >= c["clamp"])
    w = np.where(free | cut, rng.standard_normal(yd.shape), 0.0).astype(np.float32)
    if not torch.is_tensor(y) or not y.requires_grad:
        raise Violation("demosaic: result is cut off from its input")
    g, = call(torch.autograd.grad, y, x, grad_outputs=torch.from_numpy(w))
    got, want = float(np.sum(g.numpy().astype(np.float64) * v)), float(np.sum(w.astype(np.float64) * (p.astype(np.float64) - q) / 2))
    if not abs(got - want) <= 1e-6 * (1 + float(np.sum(np.abs(w)))):
        raise Violation(f"demosaic {c['al']} clamp={c['clamp']}: derivative {got!r} by back-propagation, {want!r} by differences")
    return abs(want) > 1e-4, [c["al"], "clamped" if cut.any() else "free"]


TESTS = [Test("gradient", run_rand, strategy=rand(), quick=4000),
         Test("padding", run_rand, strategy=rand(("pad",)), quick=1600),
         Test("second", run_second, strategy=rand(SMOOTH), quick=1600),
         Test("demosaic", run_dem, strategy=dem(), quick=800)]
