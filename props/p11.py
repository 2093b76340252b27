"""P11 average pooling"""
import numpy as np
import torch
from hypothesis import strategies as st
from torch.nn import functional as F
from torchimage.padding import Padder
from torchimage.pooling import AvgPoolNd

from lib import cmp, gen, padders, ref
from lib.core import Test, Violation, call

ID = "P11"
RULE = ("one case = one AvgPoolNd call; non-trivial = the padder adds elements to some axis and some window mixes original and "
        "padded elements (or, for plain means and the torch differential, a window of more than one element) on a varying input")
ASSUMPTIONS = ["count_include_pad=False is used with zero padding or without a padder", "distinct axes"]

ZERO = ("zeros", "constant", "P-zeros", "P-constant", "P-wide", "P-list")


def zero_padder(kind, m):
    if kind is None or kind in ("zeros", "constant"):
        return kind
    return {"P-zeros": lambda: Padder(mode="zeros"), "P-constant": lambda: Padder(), "P-wide": lambda: Padder(5, mode="zeros"),
            "P-list": lambda: Padder([(i, 2) for i in range(m)], mode="constant")}[kind]()


def reference(a, axes, ks, strides, padded):
    """mean over the original elements of every window, and per-window counts"""
    a = np.asarray(a, dtype=np.float64)
    mask = np.ones_like(a)
    if padded:
        a = padders.pad_same(a, axes, ks, strides, {"form": "str", "mode": "zeros"})
        mask = padders.pad_same(mask, axes, ks, strides, {"form": "str", "mode": "zeros"})
    ones = [[1.0] * k for k in ks]
    tot, cnt = ref.dense_corr(a, axes, ones, strides), ref.dense_corr(mask, axes, ones, strides)
    return tot, cnt


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1, 15000)) if big == "huge" else draw(gen.shapes(1, 3, 1, 30, 900)) if big else draw(gen.shapes(1, 4, 1, 7, 400))
    axes = draw(gen.axes_of(len(shape), 1, 4)) if draw(st.integers(0, 29)) else []
    m = len(axes)
    if not m:  # only parameters that fit any number of axes
        return {"x": draw(gen.tensors(shape)), "axes": [], "k": draw(st.integers(1, 4)), "stride": draw(st.one_of(st.none(), st.integers(1, 3))),
                "pad": draw(st.sampled_from(("zeros", "constant", "P-zeros", "P-constant", None))), "incl": draw(st.booleans()),
                "axform": draw(st.sampled_from(("list", "tuple")))}
    pad = draw(st.sampled_from(ZERO + (None,)))
    top = [max(1, shape[a]) if pad is None else (21 if big else 6) for a in axes]
    if draw(st.booleans()):
        k = draw(st.integers(1, min(min(top), 21 if big else 6)))
    else:
        k = [draw(st.integers(1, min(t, 21 if big else 6))) for t in top]
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "unit", "const", "big"))), "axes": axes, "k": k,
            "stride": draw(gen.strides(m)), "pad": pad, "incl": draw(st.booleans()), "axform": draw(gen.AXFORM)}


def run_rand(c):
    x, a = gen.make(c["x"])
    axes = gen.norm_axes(c["axes"], a.ndim)
    m = len(axes)
    ks = c["k"] if isinstance(c["k"], list) else [c["k"]] * m
    strides = gen.norm_strides(c["stride"], ks)
    pool = call(AvgPoolNd, c["k"], c["stride"], count_include_pad=c["incl"], same_padder=zero_padder(c["pad"], m))
    y = call(pool.forward, x, axes=gen.axes_arg(c["axes"], c["axform"]))
    tot, cnt = reference(a, axes, ks, strides, c["pad"] is not None)
    full = float(np.prod(ks))
    want = tot / (full if c["incl"] else cnt)
    what = f"AvgPoolNd(k={c['k']}, stride={c['stride']}, count_include_pad={c['incl']}, {c['pad']}) axes={c['axes']}"
    big = float(np.max(np.abs(a)))
    cmp.close(y, want, what, dtype=x.dtype, scale=big, ulp=256)
    if not axes:
        return False, ["no axes"]
    if not c["incl"] and np.all(a == a.flat[0]):
        cmp.close(y, np.full(want.shape, float(a.flat[0])), what + ": constant image", scale=big, ulp=256)
    mixed = bool((cnt < full).any())
    nt = len(np.unique(a)) > 1 and full > 1 and (mixed or c["pad"] is None)
    return nt, ["incl" if c["incl"] else "excl", "pad=%s" % c["pad"], "mixed" if mixed else "plain", "axes=%d" % m,
                "order=" + ("asc" if axes == sorted(axes) else "desc" if axes == sorted(axes)[::-1] else "other")]


def box(tier):
    N, K, S = (8, 8, 6) if tier == "quick" else (20, 16, 10)
    for n in range(1, N + 1):
        for k in range(1, K + 1):
            for s in [None] + list(range(1, S + 1)):
                yield {"n": n, "k": k, "s": s}


def run_box(c):
    n, k = c["n"], c["k"]
    s = k if c["s"] is None else c["s"]
    a = np.array([((5 * i * i + i) % 13) - 4.0 for i in range(n)])
    for incl in (True, False):
        y = call(call(AvgPoolNd, k, c["s"], count_include_pad=incl, same_padder="zeros").forward, torch.from_numpy(a.copy()), axes=0)
        b = ref.same_width(k, s, n)[0]
        want = []
        for i in range(-(-n // s)):
            w = [a[j] for j in range(i * s - b, i * s - b + k) if 0 <= j < n]
            want.append(sum(w) / (k if incl else len(w)))
        cmp.close(y, want, f"n={n} k={k} stride={c['s']} include={incl}", scale=10.0)
    return k > 1 and n > 1, ["k=%d" % k]


@st.composite
def in_range(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, (60, 24, 8)[nd - 1])) for _ in range(nd)]
    axes = draw(gen.axes_of(nd, 1, 3))
    top = (70, 34, 9)[len(axes) - 1]
    return {"x": {"shape": shape, "dtype": "f64", "fill": draw(gen.fills(("unit", "const"))), "layout": "c"}, "axes": axes,
            "k": draw(st.one_of(st.integers(1, 5), st.integers(1, top))), "stride": draw(st.sampled_from((None, 1, 1, 2, 5))),
            "dt": draw(st.sampled_from(("f16", "f16", "bf16", "f32", "f64"))), "part": draw(st.sampled_from((1.0, 0.5, 0.1, 0.01, 0.004))),
            "sign": draw(st.sampled_from((1, -1))), "incl": draw(st.sampled_from((False, False, True)))}


def run_in_range(c):
    """a mean lies between the smallest and the largest element, however large they are"""
    dt = {"f16": torch.float16, "bf16": torch.bfloat16, "f32": torch.float32, "f64": torch.float64}[c["dt"]]
    f = torch.finfo(dt)
    a = gen.make(c["x"])[1]
    a = a / max(1.0, float(np.abs(a).max())) * (0.5 * c["part"] * f.max * c["sign"])
    x = torch.from_numpy(a).to(dt)
    axes = gen.norm_axes(c["axes"], a.ndim)
    pool = call(AvgPoolNd, c["k"], c["stride"], count_include_pad=c["incl"], same_padder="replicate" if c["incl"] else "zeros")
    y = call(pool.forward, x, axes=axes)
    what = f"AvgPoolNd({c['k']}, {c['stride']}, count_include_pad={c['incl']}) axes={axes} of {c['dt']} values up to {float(x.abs().max()):.3g}"
    cmp.is_true(y.dtype == dt, f"{what}: {y.dtype}")
    lo, hi = float(x.min()), float(x.max())
    slack = 64 * f.eps * max(abs(lo), abs(hi))
    bad = ~((y.double() >= lo - slack) & (y.double() <= hi + slack))
    if bool(bad.any()):
        raise Violation(f"{what}: a mean of {float(y[bad].flatten()[0])!r}, but the elements lie between {lo!r} and {hi!r}")
    return c["k"] > 1 and lo != hi, [c["dt"], "incl" if c["incl"] else "excl", "part=%g" % c["part"]]


@st.composite
def vs_torch(draw):
    d = draw(st.integers(1, 3))
    shape = draw(gen.shapes(d + 2, d + 2, 1, 7, 600))
    per = lambda item: draw(st.lists(item, min_size=d, max_size=d)) if draw(st.booleans()) else draw(item)
    pad = draw(st.booleans())
    k = [draw(st.integers(1, min(6, 6 if pad else n))) for n in shape[2:]]
    k = k if draw(st.booleans()) else (min(k) if not pad else k[0])
    return {"d": d, "x": draw(gen.tensors(shape)), "k": k, "stride": draw(gen.strides(d, 4)), "pad": pad, "incl": draw(st.booleans()),
            "perm": draw(st.permutations(list(range(d))))}


def run_torch(c):
    d = c["d"]
    x, a = gen.make(c["x"])
    at = lambda v, i: v[i] if isinstance(v, list) else v
    ks = [at(c["k"], i) for i in range(d)]
    strides = gen.norm_strides(c["stride"], ks)
    pw = [0] * d
    if c["pad"]:
        for i in range(d):
            b, e = ref.same_width(ks[i], strides[i], a.shape[2 + i])
            if b != e or b > ks[i] // 2:
                return False, ["asymmetric"]
            pw[i] = b
    f = [None, F.avg_pool1d, F.avg_pool2d, F.avg_pool3d][d]
    try:
        want = f(x.detach(), tuple(ks), tuple(strides), tuple(pw), count_include_pad=c["incl"])
    except RuntimeError:  # torch itself refuses some kernels larger than the unpadded image
        return False, ["refused by torch"]
    # the same pooling with the axes listed in another order
    p = c["perm"]
    pick = lambda v: [v[i] for i in p] if isinstance(v, list) else v
    pool = call(AvgPoolNd, pick(c["k"]), pick(c["stride"]), count_include_pad=c["incl"], same_padder="zeros" if c["pad"] else None)
    y = call(pool.forward, x, axes=[2 + i for i in p])
    cmp.close(y, want.numpy(), f"torch avg_pool{d}d k={ks} stride={strides} pad={pw} include={c['incl']}", dtype=x.dtype,
              scale=float(np.max(np.abs(a))), ulp=256)
    return len(np.unique(a)) > 1 and max(ks) > 1, ["d=%d" % d, "padded" if any(pw) else "valid", "incl" if c["incl"] else "excl"]


TESTS = [
    Test("box", run_box, enum=box),
    Test("random", run_rand, strategy=rand(), quick=9000),
    Test("range", run_in_range, strategy=in_range(), quick=1500),
    Test("torch", run_torch, strategy=vs_torch(), quick=4000),
    Test("large", run_rand, strategy=rand(big=True), quick=1000), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
]
