"""P21 demosaicing"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.cfa import demosaic, last_step_demosaic

from lib import cmp, gen, ref
from lib.core import Test, call, rejects
from props.p19 import case_variant

ID = "P21"
RULE = ("one case = one mosaic demosaiced, or one constant / affine colour image mosaiced and demosaiced, or one last_step_demosaic "
        "call; non-trivial = the image varies (constant-colour images: three different channel values)")
ASSUMPTIONS = ["demosaic is a float32 module for (1, h, w) or (n, 1, h, w) input with even h, w >= 4", "clamp > 0"]

# Malvar, He, Cutler 2004 (times 16); tap [dy + 2][dx + 2]
G_AT_RB = [[0, 0, -2, 0, 0], [0, 0, 4, 0, 0], [-2, 4, 8, 4, -2], [0, 0, 4, 0, 0], [0, 0, -2, 0, 0]]
ROW = [[0, 0, 1, 0, 0], [0, -2, 0, -2, 0], [-2, 8, 10, 8, -2], [0, -2, 0, -2, 0], [0, 0, 1, 0, 0]]   # the wanted colour is in this row
COL = [[0, 0, -2, 0, 0], [0, -2, 8, -2, 0], [1, 0, 10, 0, 1], [0, -2, 8, -2, 0], [0, 0, -2, 0, 0]]   # in this column
OPP = [[0, 0, -3, 0, 0], [0, 4, 0, 4, 0], [-3, 0, 12, 0, -3], [0, 4, 0, 4, 0], [0, 0, -3, 0, 0]]     # R at B, B at R


def filter_for(role, colour):
    """None when the colour is measured there"""
    if role in ("R", "B"):
        return None if colour == role else G_AT_RB if colour == "G" else OPP
    if colour == "G":
        return None
    red_row = role == "GR"
    return ROW if (colour == "R") == red_row else COL


def reference(a, al, clamp):
    h, w = a.shape[-2:]
    x = a[..., 0, :, :].astype(np.float64)
    out = np.zeros(x.shape[:-2] + (3, h, w))
    at = {(d, n): [ref.mirror(i + d, n) for i in range(n)] for n in (h, w) for d in range(-2, 3)}
    for i in range(2):
        for j in range(2):
            for k, colour in enumerate("RGB"):
                f = filter_for(ref.role(al, i, j), colour)
                taps = [(0, 0, 1.0)] if f is None else [(dy, dx, f[dy + 2][dx + 2] / 16.0) for dy in range(-2, 3) for dx in range(-2, 3) if f[dy + 2][dx + 2]]
                for dy, dx, t in taps:
                    out[..., k, i::2, j::2] += t * x[..., at[dy, h][i::2], :][..., at[dx, w][j::2]]
    return np.clip(out, 0.0, clamp)


@st.composite
def rand(draw, big=False):
    hi = draw(st.sampled_from((32, 66, 160))) if big == "huge" else 12 if big else 5
    h, w = 2 * draw(st.integers(2, hi)), 2 * draw(st.integers(2, hi))
    lead = draw(st.sampled_from([[], [1], [2]]))
    return {"x": draw(gen.tensors(lead + [1, h, w], dtypes=("f32",), kinds=("unit", "unit", "normal", "int", "seq", "basis"))),
            "al": draw(st.sampled_from(ref.ALIGN)), "case": draw(st.sampled_from([0, 0, 15, 9])),
            "clamp": draw(st.sampled_from([None, 1.0, 0.5, 4.0, 255.0, 1, 0.01, 1e-4, 1e-9, 65535.0]))}


def run_rand(c):
    x, a = gen.make(c["x"])
    al = case_variant(c["al"], c["case"])
    clamp = 1.0 if c["clamp"] is None else c["clamp"]
    y = call(demosaic, x, al) if c["clamp"] is None else call(demosaic, x, al, clamp=c["clamp"])
    want = reference(a, c["al"], clamp)
    what = f"demosaic {al} clamp={c['clamp']}"
    cmp.close(y, want, what, dtype=torch.float32, scale=float(np.max(np.abs(a))), ulp=64)
    g = y.detach().numpy()
    meas = np.clip(a, 0.0, clamp)
    for i in range(2):
        for j in range(2):
            k = "RGB".index(ref.role(c["al"], i, j)[0])
            cmp.is_true(bool(np.array_equal(g[..., k, i::2, j::2], meas[..., 0, i::2, j::2])), f"{what}: measured samples at ({i}, {j})")
    return len(np.unique(a)) > 1, [c["al"], "batch" if a.ndim == 4 else "single", "clamp=%s" % c["clamp"], c["x"]["fill"]["k"]]


@st.composite
def meta(draw):
    q = st.sampled_from([0.25, 0.5, 0.125, 0.75, 0.375, 0.625])
    return {"h": 2 * draw(st.integers(2, 7)), "w": 2 * draw(st.integers(2, 7)), "rgb": [draw(q), draw(q), draw(q)],
            "slope": [draw(st.sampled_from([0, 1, -1, 2, 3])), draw(st.sampled_from([0, 1, -1, -2, 5]))], "al": draw(st.sampled_from(ref.ALIGN))}


def run_meta(c):
    from torchimage.cfa.utils import rgb_to_1c_bayer
    h, w = c["h"], c["w"]
    flat = np.broadcast_to(np.array(c["rgb"], dtype=np.float32)[:, None, None], (3, h, w)).copy()
    y = call(demosaic, call(rgb_to_1c_bayer, torch.from_numpy(flat), c["al"]), c["al"])
    cmp.close(y, flat, f"constant colours {c['rgb']} {c['al']}", ulp=64, scale=1.0)
    ii, jj = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    ramp = 500.0 + (flat.astype(np.float64) * 64 + c["slope"][0] * ii + c["slope"][1] * jj)
    y = call(demosaic, call(rgb_to_1c_bayer, torch.from_numpy(ramp.astype(np.float32)), c["al"]), c["al"], clamp=4000.0)
    if h > 4 and w > 4:
        cmp.close(y[..., 2:-2, 2:-2], ramp[..., 2:-2, 2:-2], f"parallel affine channels {c['al']}", ulp=64, scale=1000.0)
    return len(set(c["rgb"])) == 3, [c["al"], "ramp" if any(c["slope"]) else "flat"]


@st.composite
def last(draw, hi=4):
    lead = draw(st.lists(st.integers(1, 3), max_size=2))
    h, w = 2 * draw(st.integers(1, hi)), 2 * draw(st.integers(1, hi))
    dt = draw(st.sampled_from(("f64", "f32", "u8", "i64")))
    kinds = ("seq",) if dt != "u8" else ("full",)
    sp = lambda ch: {"shape": lead + [ch, h, w], "dtype": dt, "fill": {"k": kinds[0], "s": draw(gen.SEEDS)}, "layout": draw(gen.layouts(len(lead) + 3))}
    return {"x": sp(1), "y": sp(2), "al": draw(st.sampled_from(ref.ALIGN)), "case": draw(st.sampled_from([0, 15, 3])), "bad": draw(st.integers(0, 3))}


def run_last(c):
    x, a = gen.make(c["x"])
    y, b = gen.make(c["y"])
    al = case_variant(c["al"], c["case"])
    h, w = a.shape[-2:]
    want = np.zeros(a.shape[:-3] + (3, h, w), a.dtype)
    for i in range(2):
        for j in range(2):
            own = ref.role(c["al"], i, j)[0]
            want[..., "RGB".index(own), i::2, j::2] = a[..., 0, i::2, j::2]
            for n, k in enumerate([k for k in "RGB" if k != own]):
                want[..., "RGB".index(k), i::2, j::2] = b[..., n, i::2, j::2]
    cmp.equal(call(last_step_demosaic, x, y, al), want, f"last_step_demosaic {al}", dtype=x.dtype)
    z = [torch.zeros(list(y.shape[:-1]) + [w + 2]), torch.zeros(list(y.shape[:-2]) + [h + 2, w]), torch.zeros([4] + list(y.shape)),
         torch.zeros([1] + list(y.shape[1:]) if y.ndim > 3 and y.shape[0] > 1 else [2] + list(y.shape))][c["bad"]]
    rejects(last_step_demosaic, x, z.to(y.dtype), al, what=f"last_step_demosaic of {tuple(x.shape)} with {tuple(z.shape)}")
    return a.size > 4, [c["al"], c["x"]["dtype"]]


TESTS = [
    Test("demosaic", run_rand, strategy=rand(), quick=2500),
    Test("large", run_rand, strategy=rand(big=True), quick=250),
    Test("huge", run_rand, strategy=rand(big="huge"), quick=80),
    Test("metamorphic", run_meta, strategy=meta(), quick=1500),
    Test("last_step", run_last, strategy=last(), quick=1500),
    Test("last_step_large", run_last, strategy=last(70), quick=40),
]
