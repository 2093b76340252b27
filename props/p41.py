"""P41 numbers may be numpy scalars"""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.padding.utils import pad_width_format, same_padding_width
from torchimage.pooling.gaussian import gaussian_kernel_1d
from torchimage.shapes.conv_like import conv_1d, conv_nd, n_original_elements_1d, n_original_elements_nd
from torchimage.utils import NdSpec

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P41"
RULE = ("one case = one operation (or size function) run with Python numbers and with the equal numpy scalars (int32, int64, float64; lists of "
        "them also as numpy arrays); non-trivial = at least one number was replaced and the result is not constant")
ASSUMPTIONS = ["numpy types that hold the number exactly and are at least 32 bits wide", "seeds and single axis numbers stay Python integers",
               "random operations are compared under the same generator state"]
KEEP = ("seed", "ws", "un", "what", "m", "form", "kind", "each", "how", "one", "dt", "cls", "wl", "wk", "K", "d", "dim", "ci", "co")
NAMES = tuple(n for n in ops.OPS if n not in ("bayer", "describe", "laststep", "outer", "bayerconv"))
ARRAYS = ("k", "stride", "sigma", "order", "p", "size", "w")


def convert(v, how, n, key=None, top=False):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        n[0] += 1
        return np.int32(v) if how == "i32" and abs(v) < 2 ** 31 else np.int64(v)
    if isinstance(v, float):
        n[0] += 1
        return np.float64(v)
    if isinstance(v, list):
        if how == "array" and key in ARRAYS and len(v) and all(type(e) in (int, float) for e in v):
            n[0] += 1
            return np.array(v)
        return [convert(e, how, n) for e in v]
    if isinstance(v, dict):
        return {k: e if k in KEEP else convert(e, how, n, k) for k, e in v.items()}
    return v


@st.composite
def rand(draw):
    return {"sp": draw(ops.strategy(NAMES, dtypes=("f64", "f64", "f32"), wide=True)), "how": draw(st.sampled_from(("i64", "i32", "i32", "array")))}


def plain(sp):
    """array parameters only where the caller's numbers form one flat list"""
    return sp["op"] not in ("pad", "ssim")


def run_rand(c):
    sp, how = c["sp"], c["how"]
    if how == "array" and not plain(sp):
        how = "i64"
    n = [0]
    other = dict(sp, cfg=convert(copy.deepcopy(sp["cfg"]), how, n))
    what = f"{sp['op']} axes={sp['axes']} {sp['cfg']} with numpy numbers ({how})"[:500]

    def go(s):
        torch.manual_seed(7)
        return [t.detach() for t, _ in call(call(ops.build, s), [gen.make(t)[0] for t in sp["x"]])]
    want = go(sp)
    got = go(other)
    cmp.is_true(len(want) == len(got), what)
    varied = False
    for y, r in zip(got, want):
        if y.dtype != r.dtype:
            raise Violation(f"{what}: the result is {y.dtype} instead of {r.dtype}")
        cmp.shape_is(y, r.shape, what)
        if r.numel() == 0:
            continue
        tol = (1e-9 if r.dtype == torch.float64 else 1e-5) * ops.slack(sp)
        fin = r[torch.isfinite(r)] if r.is_floating_point() else r
        if not torch.allclose(y, r, rtol=tol, atol=tol * float(fin.abs().max()) if fin.numel() else 0.0, equal_nan=True):
            raise Violation(f"{what}: {y.flatten()[:4].tolist()} instead of {r.flatten()[:4].tolist()} (largest difference "
                            f"{float((y.double() - r.double()).abs().max()):.3g})")
        varied |= r.numel() > 1 and bool((r != r.flatten()[0]).any())
    return n[0] > 0 and varied, ["op=" + sp["op"], how]


@st.composite
def sizes(draw):
    return {"n": draw(st.integers(1, 400)), "k": draw(st.integers(1, 60)), "s": draw(st.integers(1, 20)), "d": draw(st.integers(1, 6)),
            "b": draw(st.integers(0, 70)), "a": draw(st.integers(0, 70)), "sigma": draw(st.sampled_from((0.5, 1.5, 3, 8, 2.25))),
            "o": draw(st.integers(0, 4)), "i32": draw(st.booleans())}


def listed(v):
    if isinstance(v, NdSpec):
        return [listed(e) for e in v] if not v.is_item else listed(v.data)
    if torch.is_tensor(v):
        return v.tolist()
    if isinstance(v, (list, tuple, np.ndarray)):
        return [listed(e) for e in v]
    return float(v)


def run_sizes(c):
    I = np.int32 if c["i32"] else np.int64
    n, k, s, d, b, a, o = (c[q] for q in ("n", "k", "s", "d", "b", "a", "o"))
    sg = c["sigma"]
    N, K, S, D, B, A, O = (I(q) for q in (n, k, s, d, b, a, o))
    SG = np.float64(sg) if isinstance(sg, float) else I(sg)
    pairs = [("same_padding_width", lambda: same_padding_width(k, s, n), lambda: same_padding_width(K, S, N)),
             ("same_padding_width(stride 1)", lambda: same_padding_width(k, 1), lambda: same_padding_width(K, I(1))),
             ("same_padding_width(stride None)", lambda: same_padding_width(k, None, n), lambda: same_padding_width(K, None, N)),
             ("conv_1d", lambda: conv_1d(n, k, s, d), lambda: conv_1d(N, K, S, D)),
             ("conv_nd", lambda: conv_nd([n, n + 1], k, [s, 1], d), lambda: conv_nd(np.array([n, n + 1]), K, [S, I(1)], D)),
             ("n_original_elements_1d", lambda: n_original_elements_1d(n, (b, a), k, s), lambda: n_original_elements_1d(N, (B, A), K, S)),
             ("gaussian_kernel_1d", lambda: gaussian_kernel_1d(k, sg, o), lambda: gaussian_kernel_1d(K, SG, O)),
             ("pad_width_format", lambda: pad_width_format(((b, a), (a, b)), "numpy", "torch"),
              lambda: pad_width_format(np.array([[b, a], [a, b]]), "numpy", "torch")),
             ("NdSpec", lambda: NdSpec([k, s, d])[1], lambda: NdSpec(np.array([k, s, d]))[I(1)]),
             ("NdSpec of pairs", lambda: NdSpec((b, a), item_shape=(2,))[4], lambda: NdSpec((B, A), item_shape=(I(2),))[I(4)])]
    if n + b + a >= k:
        pairs.append(("n_original_elements_nd", lambda: n_original_elements_nd([n, n], (b, a), k, s), lambda: n_original_elements_nd(np.array([n, n]), (B, A), K, S)))
    for name, f, g in pairs:
        want, got = listed(call(f)), listed(call(g))
        what = f"{name} with numpy numbers, {c}"
        x, y = np.array(want, dtype=float), np.array(got, dtype=float)
        if x.shape != y.shape or not np.allclose(y, x, rtol=1e-10, atol=1e-300):
            raise Violation(f"{what}: {str(got)[:200]} instead of {str(want)[:200]}")
    return True, ["i32" if c["i32"] else "i64"]


TESTS = [Test("operations", run_rand, strategy=rand(), quick=11000), Test("sizes", run_sizes, strategy=sizes(), quick=2500)]
