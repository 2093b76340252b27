"""P20 BayerConv2d"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.cfa import BayerConv2d, BayerConv2dUnshuffle

from lib import cmp, gen, ref
from lib.core import Test, call, rejects
from props.p19 import case_variant

ID = "P20"
RULE = ("one case = one BayerConv2d with generated weights applied to one image; non-trivial = the four roles' weights differ and "
        "the image varies")
ASSUMPTIONS = ["odd kernel sizes, even image sizes larger than the padding, 3-D or 4-D input"]

ROLES = ("R", "B", "GR", "GB")


@st.composite
def rand(draw, big=False):
    k = draw(st.sampled_from((1, 3, 5, 7) if not big else (5, 9, 11)))
    lo = (k // 2 + 2) // 2  # reflection needs at least k // 2 + 1 samples
    h, w = 2 * draw(st.integers(max(1, lo), lo + (3 if not big else 10))), 2 * draw(st.integers(max(1, lo), lo + (3 if not big else 10)))
    lead = draw(st.sampled_from([[], [1], [2], [3]]))
    ci, co = draw(st.integers(1, 4 if not big else 2)), draw(st.integers(1, 4 if not big else 2))
    if big == "huge":
        hi = draw(st.sampled_from((32, 66, 136)))
        k, h, w, ci, co = draw(st.sampled_from((1, 3, 5))), 2 * draw(st.integers(3, hi)), 2 * draw(st.integers(3, hi)), 1, draw(st.integers(1, 2))
        lead = lead if lead != [3] else [1]
    return {"k": k, "ci": ci, "co": co, "bias": draw(st.booleans()), "al": draw(st.sampled_from(ref.ALIGN)), "case": draw(st.sampled_from([0, 0, 15, 6])),
            "x": draw(gen.tensors(lead + [ci, h, w], dtypes=("f64", "f64", "f32"), kinds=("normal", "int", "unit", "seq"))), "ws": draw(gen.SEEDS),
            "wk": draw(st.sampled_from(("normal", "int", "basis")))}


def weights(c):
    out = {}
    for n, role in enumerate(ROLES):
        w = gen.values([c["co"], c["ci"], c["k"], c["k"]], "f64", {"k": c["wk"], "s": c["ws"] + 7919 * n})
        b = gen.values([c["co"]], "f64", {"k": "normal", "s": c["ws"] + 31 * n + 5}) if c["bias"] else np.zeros(c["co"])
        out[role] = (w, b)
    return out


def load(m, ws, bias, dtype):
    m.to(dtype)
    with torch.no_grad():
        for role, (w, b) in ws.items():
            m.conv_dict[role].weight.copy_(torch.from_numpy(w))
            if bias:
                m.conv_dict[role].bias.copy_(torch.from_numpy(b))
    return m


def reference(a, c, ws):
    k, r = c["k"], c["k"] // 2
    h, w = a.shape[-2:]
    x = a.astype(np.float64)
    rows = [ref.mirror(i, h) for i in range(-r, h + r)]
    cols = [ref.mirror(j, w) for j in range(-r, w + r)]
    p = x[..., rows, :][..., cols]
    win = np.lib.stride_tricks.sliding_window_view(p, (k, k), axis=(-2, -1))  # (..., ci, h, w, k, k)
    out = np.zeros(x.shape[:-3] + (c["co"], h, w))
    per = {role: np.einsum("...chwkl,ockl->...ohw", win, wt) + b[:, None, None] for role, (wt, b) in ws.items()}
    for i in range(2):
        for j in range(2):
            role = ref.role(c["al"], i, j)
            out[..., i::2, j::2] = per[role][..., i::2, j::2]
    return out


def unshuffle(v):
    """(..., c, h, w) -> (..., 4c, h/2, w/2), channel c*4 + 2*row + col"""
    h, w = v.shape[-2:]
    v = v.reshape(v.shape[:-2] + (h // 2, 2, w // 2, 2))
    v = np.moveaxis(v, (-3, -1), (-4, -3))
    return v.reshape(v.shape[:-5] + (-1, h // 2, w // 2))


def run_rand(c):
    x, a = gen.make(c["x"])
    al = case_variant(c["al"], c["case"])
    ws = weights(c)
    if c["x"]["dtype"] == "f32":
        ws = {r: (w.astype(np.float32).astype(np.float64), b.astype(np.float32).astype(np.float64)) for r, (w, b) in ws.items()}
    m = load(call(BayerConv2d, c["ci"], c["co"], c["k"], c["bias"]), ws, c["bias"], x.dtype)
    u = load(call(BayerConv2dUnshuffle, in_channels=c["ci"], out_channels=c["co"], kernel_size=c["k"], bias=c["bias"]), ws, c["bias"], x.dtype)
    want = reference(a, c, ws)
    big = float(np.max(np.abs(a))) * max(float(np.sum(np.abs(w), axis=(1, 2, 3)).max()) for w, _ in ws.values()) + 4
    what = f"BayerConv2d k={c['k']} {al}"
    y = call(m, x, al)
    cmp.close(y, want, what, dtype=x.dtype, scale=big, ulp=256)
    flat = unshuffle(y.detach().numpy())
    for name, got in (("forward_unshuffle", call(m.forward_unshuffle, x, al)), ("BayerConv2dUnshuffle", call(u, x, al))):
        cmp.close(got, flat, f"{name} {what}", dtype=x.dtype, scale=big, ulp=16)
        cmp.close(got, unshuffle(want), f"{name} {what}", dtype=x.dtype, scale=big, ulp=256)
    return len(np.unique(a)) > 1 and not np.array_equal(ws["GR"][0], ws["GB"][0]), [
        "k=%d" % c["k"], c["al"], "batch" if a.ndim == 4 else "single", "bias" if c["bias"] else "nobias", "ci=%d" % c["ci"], "co=%d" % c["co"]]


# ---------------------------------------------------------------- weights that change between calls
SETS = ("copy", "data", "load", "replace", "scale", "none")


@st.composite
def stateful(draw):
    c = draw(rand())
    for k in ("x",):
        c[k].pop("grad", None)
    steps = []
    for _ in range(draw(st.integers(2, 4))):
        steps.append({"set": draw(st.sampled_from(SETS)), "ws": draw(gen.SEEDS), "al": draw(st.sampled_from((c["al"],) + ref.ALIGN)), "mode": draw(st.sampled_from(("grad", "nograd", "inference"))),
                      "train": draw(st.sampled_from((None, True, False))), "dt": draw(st.sampled_from((None, None, "f64", "f32"))), "un": draw(st.booleans())})
    return dict(c, steps=steps)


def run_stateful(c):
    """every call uses the weights the layer holds at that time"""
    import contextlib
    x, a = gen.make(c["x"])
    m = load(call(BayerConv2d, c["ci"], c["co"], c["k"], c["bias"]), weights(c), c["bias"], x.dtype)
    cur = weights(c)
    changed = False
    for n, q in enumerate(c["steps"]):
        if q["dt"]:
            m.to(gen.td(q["dt"]))
            x = x.to(gen.td(q["dt"]))
        if q["train"] is not None:
            m.train(q["train"])
        new = weights(dict(c, ws=q["ws"]))
        how = q["set"]
        if how == "copy":
            load(m, new, c["bias"], x.dtype)
        elif how == "data":
            for role, (w, b) in new.items():
                m.conv_dict[role].weight.data = torch.from_numpy(w).to(x.dtype)
                if c["bias"]:
                    m.conv_dict[role].bias.data = torch.from_numpy(b).to(x.dtype)
        elif how == "load":
            sd = {}
            for role, (w, b) in new.items():
                sd[f"conv_dict.{role}.weight"] = torch.from_numpy(w)
                if c["bias"]:
                    sd[f"conv_dict.{role}.bias"] = torch.from_numpy(b)
            m.load_state_dict(sd)
        elif how == "replace":
            for role, (w, b) in new.items():
                m.conv_dict[role].weight = torch.nn.Parameter(torch.from_numpy(w).to(x.dtype))
                if c["bias"]:
                    m.conv_dict[role].bias = torch.nn.Parameter(torch.from_numpy(b).to(x.dtype))
        elif how == "scale":
            new = {r: (w * -0.5, b * -0.5) for r, (w, b) in cur.items()}
            with torch.no_grad():
                for p in m.parameters():
                    p.mul_(-0.5)
        else:
            new = cur
        changed |= how != "none" and n > 0
        cur = new
        ctx = {"grad": contextlib.nullcontext, "nograd": torch.no_grad, "inference": torch.inference_mode}[q["mode"]]
        want = reference(a, dict(c, al=q["al"]), cur)
        big = float(np.max(np.abs(a))) * max(float(np.sum(np.abs(w), axis=(1, 2, 3)).max()) for w, _ in cur.values()) + 4
        low = x.dtype == torch.float32 or any(p["dt"] == "f32" for p in c["steps"][:n + 1]) or c["x"]["dtype"] == "f32"
        with ctx():
            y = call(m.forward_unshuffle if q["un"] else m, x, q["al"])
        cmp.close(y, unshuffle(want) if q["un"] else want, f"call {n} after weights were set by {how!r} ({q['mode']}, {'training' if m.training else 'eval'}, {q['al']})",
                  dtype=x.dtype, scale=big, ulp=512 * (cmp.EPS[torch.float32] / cmp.EPS[x.dtype] if low else 1))
    return changed, ["steps=%d" % len(c["steps"])] + sorted({"set=" + q["set"] for q in c["steps"]})


@st.composite
def bad(draw):
    return {"al": draw(st.one_of(st.text("RGBrgb", max_size=5), st.sampled_from(["RGBG", "GRGB", "RRGB", "RGGBX", "BGR", "GGRB", ""]))),
            "k": draw(st.sampled_from([1, 3, 5]))}


def run_bad(c):
    if c["al"].upper() in ref.ALIGN:
        return False, ["valid"]
    x = torch.zeros(1, 6, 6)
    m = BayerConv2d(1, 2, c["k"], False)
    rejects(m, x, c["al"], what=f"alignment {c['al']!r}")
    rejects(m.forward_unshuffle, x, c["al"], what=f"alignment {c['al']!r}")
    return True, ["invalid"]


TESTS = [
    Test("conv", run_rand, strategy=rand(), quick=4000),
    Test("large", run_rand, strategy=rand(big=True), quick=300),
    Test("huge", run_rand, strategy=rand(big="huge"), quick=60),
    Test("changing", run_stateful, strategy=stateful(), quick=1200),
    Test("reject", run_bad, strategy=bad(), quick=400),
]
