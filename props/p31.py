"""P31 equivariance, batching, notation, linearity"""
import numpy as np
import torch
from hypothesis import strategies as st

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P31"
RULE = ("one case = one axis-taking operation compared with itself on permuted axes, on a stack, under another notation of the same axes, or on "
        "a linear combination; non-trivial = the permutation / notation really differs and the result varies")
ASSUMPTIONS = ["results are compared to rounding accuracy", "linearity for modes that are linear rules with zero constants"]

NAMES = tuple(n for n, o in ops.OPS.items() if o.axes)
LINEAR = tuple(n for n, o in ops.OPS.items() if o.linear)
RTOL = {torch.float64: 1e-8, torch.float32: 4e-3}


def near(y, want, what, dtype, big=1.0):
    fin = np.abs(want[np.isfinite(want)])
    b = max(big, float(fin.max()) if fin.size else 0.0)
    cmp.close(y, want, what, dtype=dtype, ulp=0, atol=RTOL[dtype] * b)


def fixed(sp):
    """horizontal / vertical name their own axes"""
    return sp["op"] == "edge" and sp["cfg"]["what"] in ("horizontal", "vertical")


def varied(a):
    return bool(np.ptp(a[np.isfinite(a)]) > 1e-9) if a.size and np.isfinite(a).any() else False


@st.composite
def r_perm(draw):
    sp = ops.steady(draw(ops.strategy(NAMES, wide=True)))
    if fixed(sp):
        sp["cfg"]["what"] = "component"
    return {"sp": sp, "perm": list(draw(st.permutations(list(range(len(sp["x"][0]["shape"])))))), "form": draw(st.sampled_from(ops.FORMS)),
            "contig": draw(st.booleans())}


def run_perm(c):
    sp, perm = c["sp"], c["perm"]
    nd = len(perm)
    inst = call(ops.build, sp)
    ts = [gen.make(t)[0] for t in sp["x"]]
    base = call(inst, ts)
    # new axis j holds old axis perm[j]
    amap = {perm[j]: j for j in range(nd)}
    moved = [t.permute(perm).contiguous() if c["contig"] else t.permute(perm) for t in ts]
    got = call(call(ops.build, sp), moved, amap=amap, form=c["form"])
    what = f"{sp['op']} axes={sp['axes']} permuted by {perm} {sp['cfg']}"[:500]
    big = max(float(t.abs().max()) for t in ts)
    for (y, ly), (b, lb) in zip(got, base):
        old = [perm[j] for j in ly]  # old numbering of the output's axes
        if sorted(old) != sorted(lb):
            raise Violation(f"{what}: result keeps axes {old}, expected {lb}")
        cmp.is_true(y.ndim == len(old) and b.ndim == len(lb), f"{what}: result has {y.ndim} axes")
        near(y, np.transpose(b.numpy(), [lb.index(o) for o in old]), what, ts[0].dtype, big * ops.slack(sp))
    return perm != sorted(perm) and varied(base[0][0].numpy()) or (perm != sorted(perm) and base[-1][0].ndim == 0), ["op=" + sp["op"], "nd=%d" % nd, "form=" + c["form"]]


@st.composite
def r_stack(draw):
    sp = ops.steady(draw(ops.strategy(NAMES, layout=False, wide=True)))
    pos = draw(st.integers(0, len(sp["x"][0]["shape"])))
    if fixed(sp):
        pos = min(pos, len(sp["x"][0]["shape"]) - 2)
    return {"sp": sp, "pos": pos, "n": draw(st.integers(1, 3)), "s": draw(gen.SEEDS)}


def run_stack(c):
    sp, pos, n = c["sp"], c["pos"], c["n"]
    nd = len(sp["x"][0]["shape"])
    many = []
    for i in range(n):
        many.append([torch.from_numpy(gen.values(t["shape"], t["dtype"], {"k": t["fill"]["k"], "s": t["fill"]["s"] + i * (c["s"] + 1)})) for t in sp["x"]])
    stacked = [torch.stack([m[k] for m in many], dim=pos) for k in range(len(sp["x"]))]
    amap = {a: a + (a >= pos) for a in range(nd)}
    got = call(call(ops.build, sp), stacked, amap=amap)
    each = [call(call(ops.build, sp), m) for m in many]
    what = f"{sp['op']} axes={sp['axes']} on a stack of {n} along {pos} {sp['cfg']}"[:500]
    big = max(float(t.abs().max()) for t in stacked)
    for q, (y, ly) in enumerate(got):
        cmp.is_true(pos in ly and y.ndim == len(ly), f"{what}: the stacking axis is lost")
        ref = np.stack([e[q][0].numpy() for e in each], axis=ly.index(pos))
        near(y, ref, what, stacked[0].dtype, big * ops.slack(sp))
    return n > 1, ["op=" + sp["op"], "pos=%s" % ("first" if pos == 0 else "last" if pos == nd else "middle"), "n=%d" % n]


EMPTY = tuple(NAMES) + ("bayer", "bayerconv", "edgeloss", "poly1d", "power", "laststep")


@st.composite
def r_empty(draw):
    sp = draw(ops.strategy(EMPTY, layout=False))
    nd = len(sp["x"][0]["shape"])
    lead = sp["axes"] is None  # the layout of these operations is fixed: batches come first
    pos = 0 if lead or fixed(sp) else draw(st.integers(0, nd))
    return {"sp": sp, "pos": pos, "n": draw(st.sampled_from((0, 0, 0, 2)))}


def run_empty(c):
    """a stack without images gives a stack without results, of the types and shapes of the others"""
    sp, pos, n = c["sp"], c["pos"], c["n"]
    ts = [gen.make(t)[0] for t in sp["x"]]
    nd = ts[0].ndim
    if sp["op"] in ("bayer", "bayerconv", "edgeloss", "laststep"):
        if nd != (3 if sp["op"] in ("bayer", "bayerconv") else 4):
            return False, ["has a batch"]
        many = [t.unsqueeze(0)[:0] if nd == 3 else t[:0] for t in ts]
        lead = nd == 4
    else:
        many = [torch.zeros(list(t.shape[:pos]) + [n] + list(t.shape[pos:]), dtype=t.dtype) for t in ts]
        lead = False
    n = many[0].shape[pos]
    amap = {a: a + (a >= pos) for a in range(nd)}
    one = call(call(ops.build, sp), ts)
    got = call(call(ops.build, sp), many, amap=amap)
    what = f"{sp['op']} axes={sp['axes']} on a stack of {n} along {pos} {sp['cfg']}"[:500]
    for (y, ly), (r, _) in zip(got, one):
        at = ly.index(pos) if ly is not None else pos
        if sp["op"] == "edgeloss":  # a mean over everything
            continue
        want = list(r.shape)
        if lead:
            want[at] = n
        else:
            want.insert(at, n)
        cmp.shape_is(y, want, what)
        cmp.is_true(y.dtype == r.dtype, f"{what}: {y.dtype} instead of {r.dtype}")
    return n == 0, ["op=" + sp["op"], "n=%d" % n]


@st.composite
def r_note(draw):
    sp = ops.steady(draw(ops.strategy(NAMES, wide=True)))
    if fixed(sp):
        sp["cfg"]["what"] = "all"
    nd = len(sp["x"][0]["shape"])
    # favour axis lists that slices and None can name
    ordered = draw(st.booleans())
    if ordered:
        sp["axes"] = sorted(sp["axes"])
        if draw(st.integers(0, 3)) == 0:
            sp["axes"] = sp["axes"][::-1]
        m = len(sp["axes"])
        if m == nd or draw(st.booleans()):
            lo = draw(st.integers(0, nd - m))
            new = list(range(lo, lo + m))
            if draw(st.integers(0, 2)) == 0 and m > 1:  # every second axis, or backwards
                step = draw(st.sampled_from([s for s in (-2, -1, 2) if (m - 1) * abs(s) < nd]))
                new = list(range(0, nd, abs(step)))[:m][::1 if step > 0 else -1]
            if sp["op"] not in ("pool", "ssim", "msssim"):  # those drew kernels that fit the axes' sizes
                sp["axes"] = new
    return {"sp": sp, "form": draw(st.sampled_from([f for f in ops.FORMS if f != "list"]))}


def run_note(c):
    sp = c["sp"]
    ts = [gen.make(t)[0] for t in sp["x"]]
    base = call(call(ops.build, sp), ts, form="list")
    got = call(call(ops.build, sp), ts, form=c["form"])
    nd = ts[0].ndim
    arg = ops.form_axes(sp["axes"], nd, c["form"])
    what = f"{sp['op']} axes={sp['axes']} written as {arg!r} {sp['cfg']}"[:500]
    for (y, _), (b, _) in zip(got, base):
        near(y, b.numpy(), what, ts[0].dtype, ops.slack(sp))
    return not (isinstance(arg, list) and arg == sp["axes"]), ["op=" + sp["op"], "as " + type(arg).__name__]


@st.composite
def r_linear(draw):
    sp = draw(ops.strategy(LINEAR, layout=True, wide=True))
    pads = [p for p in (sp["cfg"].get("pad"), sp["cfg"].get("f", {}).get("pad") if isinstance(sp["cfg"].get("f"), dict) else None) if p]
    for p in pads:
        p.pop("cv", None), p.pop("ev", None), p.pop("sl", None)
        ok = lambda m: m if m in gen.LINEAR_MODES or m in ("constant", "linear_ramp") else "mean"
        p["mode"] = [ok(q) for q in p["mode"]] if isinstance(p["mode"], list) else ok(p["mode"])
    if sp["op"] == "pad":
        for k in ("cv", "ev", "sl"):
            sp["cfg"].pop(k, None)
        ok = lambda m: m if m in gen.LINEAR_MODES or m in ("constant", "linear_ramp") else "mean"
        m = sp["cfg"]["mode"]
        sp["cfg"]["mode"] = [ok(q) for q in m] if isinstance(m, list) else ok(m)
    if sp["op"] == "unsharp":
        sp["cfg"]["thr"] = 0
    if sp["op"] == "edge" and sp["cfg"]["what"] == "magnitude":
        sp["cfg"]["p"] = 1
    return {"sp": sp, "s": draw(gen.SEEDS), "al": draw(st.sampled_from([1, -1, 0.5, 3, -2.25, 0])), "be": draw(st.sampled_from([1, -1, 2, 0.25, -7]))}


def run_linear(c):
    sp = c["sp"]
    if not ops.OPS[sp["op"]].linear(sp):
        return False, ["not linear"]
    al, be = c["al"], c["be"]
    t = sp["x"][0]
    a = gen.make(t)[1]
    b = gen.values(t["shape"], t["dtype"], {"k": "normal", "s": c["s"]})
    inst = call(ops.build, sp)
    fa = [y.numpy() for y, _ in call(inst, [gen.make(t)[0]])]
    fb = [y.numpy() for y, _ in call(inst, [torch.from_numpy(b)])]
    comb = (al * a.astype(np.float64) + be * b.astype(np.float64)).astype(a.dtype)
    fc = [y for y, _ in call(inst, [torch.from_numpy(comb)])]
    what = f"{sp['op']} axes={sp['axes']} of {al} x + {be} y {sp['cfg']}"[:500]
    for y, p, q in zip(fc, fa, fb):
        big = max(1.0, float(np.abs(comb).max()), abs(al) * float(np.abs(p).max() if p.size else 0), abs(be) * float(np.abs(q).max() if q.size else 0))
        near(y, al * p.astype(np.float64) + be * q.astype(np.float64), what, y.dtype, big)
    return bool(al) and any(varied(p) for p in fa), ["op=" + sp["op"], t["dtype"]]


NOAX = ("pad", "pool", "unsharp")


@st.composite
def r_noaxes(draw):
    return {"sp": draw(ops.strategy(NOAX, wide=True)), "form": draw(st.sampled_from(("list", "tuple", "slice")))}


def run_noaxes(c):
    """an empty choice of axes leaves nothing to do"""
    sp = dict(c["sp"], axes=[], cfg=dict(c["sp"]["cfg"]))
    if sp["op"] != "pad":  # per-axis parameters must match the number of axes
        first = lambda v: next((q for q in v if q), v[0]) if isinstance(v, list) and v else v
        sp["cfg"]["pool"] = {k: v if k == "kernel" and v and not isinstance(v[0], list) else first(v) for k, v in sp["cfg"]["pool"].items()}
        sp["cfg"]["stride"] = first(sp["cfg"].get("stride"))
        if sp["cfg"]["pad"] is not None:
            sp["cfg"]["pad"] = {"form": "str", "mode": first(sp["cfg"]["pad"]["mode"])}
    x, a = gen.make(sp["x"][0])
    inst = call(ops.build, sp)
    if c["form"] == "list":
        (y, _), = call(inst, [x])
    elif sp["op"] == "pad" and sp["cfg"]["one"]:
        return False, ["one axis at a time"]
    else:
        y = call(inst.mod.forward, x, axes=() if c["form"] == "tuple" else slice(a.ndim, None))
    cmp.equal(y, a, f"{sp['op']} over no axes {sp['cfg']}"[:500])
    return varied(a), ["op=" + sp["op"], "form=" + c["form"]]


TESTS = [Test("permute", run_perm, strategy=r_perm(), quick=4500), Test("stack", run_stack, strategy=r_stack(), quick=3500),
         Test("empty", run_empty, strategy=r_empty(), quick=2000),
         Test("noaxes", run_noaxes, strategy=r_noaxes(), quick=700), Test("notation", run_note, strategy=r_note(), quick=4000), Test("linear", run_linear, strategy=r_linear(), quick=3500)]
