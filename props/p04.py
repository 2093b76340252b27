"""P04 same padding and convolution sizes"""
from hypothesis import strategies as st
import torch
from torchimage.padding import Padder
from torchimage.padding.utils import pad_width_format, same_padding_width
from torchimage.shapes.conv_like import conv_1d, conv_nd
from torchimage.utils import NdSpec

from lib import cmp, gen, ref
from lib.core import Test, Violation, call, rejects

ID = "P04"
RULE = ("one case = a (kernel, stride, size) triple, exhaustive in a box and random beyond it, or a per-axis to_same / conv_nd "
        "/ width-format call; non-trivial = the padding is not zero, or more than one window fits")
ASSUMPTIONS = ["sizes >= 1; the covering clause is checked for stride <= kernel, where windows can cover everything"]


def check_width(k, s, n):
    got = call(same_padding_width, k, s, n)
    if not (isinstance(got, (tuple, list)) and len(got) == 2):
        raise Violation(f"same_padding_width({k},{s},{n}) = {got!r} is not a pair")
    b, a = got
    what = f"same_padding_width({k}, {s}, {n}) = {(b, a)}"
    cmp.is_true(b >= 0 and a >= 0 and 0 <= b - a <= 1, what + ": not a nonnegative, front-heavy, balanced pair")
    st_ = k if s is None else s
    out = -(-n // st_)
    tot = b + a
    cmp.is_true((n + tot - k) // st_ + 1 == out and n + tot >= k, what + f": window count is not ceil(n/s) = {out}")
    if st_ <= max(k, 1):
        cmp.is_true((out - 1) * st_ + k >= n + b, what + ": last window does not reach the last element")
        if st_ != 1 and tot > 0:  # no smaller total does it
            t = tot - 1
            ok = n + t >= k and (n + t - k) // st_ + 1 == out and (out - 1) * st_ + k >= n + (t - t // 2)
            cmp.is_true(not ok, what + f": total {t} would suffice")
    if st_ == 1:
        cmp.is_true(tot == max(k - 1, 0), what + ": stride 1 total is not kernel - 1")
    cmp.same((int(b), int(a)), ref.same_width(k, s, n), what)
    return tot


def box(tier):
    m = 24 if tier == "quick" else 60
    for n in range(1, m + 1):
        for k in range(1, m + 1):
            yield {"n": n, "k": k, "m": m}


def run_box(c):
    n, k = c["n"], c["k"]
    for s in [None] + list(range(1, c["m"] + 1)):
        check_width(k, s, n)
        for d in (1, 2, 3):
            if d * (k - 1) + 1 <= n and s is not None:
                cmp.same(int(call(conv_1d, n, k, s, d)), ref.n_windows(n, k, s, d), f"conv_1d({n},{k},{s},{d})")
            elif s is not None:
                g = int(call(conv_1d, n, k, s, d))
                cmp.is_true(g <= 0, f"conv_1d({n},{k},{s},{d}) = {g}, but no window fits")
    cmp.same(tuple(call(same_padding_width, k, 1)), tuple(same_padding_width(k, 1, n)), "stride 1 without a size")
    cmp.same(tuple(call(same_padding_width, 0, 1, n)), (0, 0), "empty kernel")
    return k > 1 or n > 1, ["k>n" if k > n else "k<=n"]


BIG = st.one_of(st.integers(1, 40), st.integers(1, 5000), st.integers(1, 10 ** 7))


@st.composite
def large(draw):
    s = draw(st.one_of(st.none(), BIG))
    k = draw(BIG)
    n = draw(BIG)
    if draw(st.booleans()):  # just around a multiple of the stride
        n = max(1, draw(st.one_of(st.integers(1, 5), st.integers(1, 3000))) * (k if s is None else s) + draw(st.integers(-2, 2)))
    return {"n": n, "k": k, "s": s, "d": draw(st.integers(1, 9))}


def run_large(c):
    t = check_width(c["k"], c["s"], c["n"])
    s = c["k"] if c["s"] is None else c["s"]
    span = c["d"] * (c["k"] - 1) + 1
    n = c["n"] + span
    cmp.same(int(call(conv_1d, n, c["k"], s, c["d"])), ref.n_windows(n, c["k"], s, c["d"]), f"conv_1d({n},{c['k']},{s},{c['d']})")
    return t > 0, ["pad" if t else "nopad"]


@st.composite
def same_axes(draw):
    m = draw(st.integers(1, 4))
    per = lambda item: draw(st.lists(item, min_size=m, max_size=m)) if draw(st.booleans()) else draw(item)
    return {"m": m, "k": per(st.integers(1, 9)), "s": per(st.integers(1, 5)), "n": draw(st.lists(st.integers(1, 12), min_size=m, max_size=m)),
            "mode": draw(st.sampled_from(("replicate", "constant", "zeros", "symmetric", "circular"))),
            "w0": draw(st.integers(0, 5)), "d": per(st.integers(1, 3)), "scalar_n": draw(st.booleans()),
            "tup": draw(st.booleans())}


def at(p, i):
    return p[i] if isinstance(p, list) else p


def run_same(c):
    m = c["m"]
    n = c["n"]
    seq = (lambda p: tuple(p) if isinstance(p, list) and c["tup"] else p)
    in_shape = n[0] if c["scalar_n"] else seq(n)
    ns = [n[0]] * m if c["scalar_n"] else n
    p = call(Padder, c["w0"], mode=c["mode"])
    q = call(p.to_same, kernel_size=seq(c["k"]), stride=seq(c["s"]), in_shape=in_shape)
    cmp.is_true(isinstance(q, Padder), "to_same does not return a padder")
    want = [ref.same_width(at(c["k"], i), at(c["s"], i), ns[i]) for i in range(m)]
    for pp, nm in ((q, "returned padder"), (p, "padder itself")):
        for i in range(m):
            g = call(pp.pad_width.__getitem__, i)
            cmp.same((int(g[0]), int(g[1])), want[i], f"{nm}.pad_width[{i}] for k={c['k']} s={c['s']} n={in_shape}")
    x = torch.arange(1, 1 + int(torch.tensor(ns).prod()), dtype=torch.float64).reshape(ns)
    y = call(q.forward, x, axes=None)
    for i in range(m):
        L = y.shape[i]
        k, s = at(c["k"], i), at(c["s"], i)
        cmp.same(L, ns[i] + sum(want[i]), f"padded length of axis {i}")
        cmp.same((L - k) // s + 1, -(-ns[i] // s), f"windows on axis {i}")
    # conv_nd on the padded shape
    cn = call(conv_nd, list(y.shape), seq(c["k"]), seq(c["s"]), 1)
    cmp.same([int(v) for v in cn], [-(-ns[i] // at(c["s"], i)) for i in range(m)], "conv_nd of the padded shape")
    # conv_nd with dilation
    span = [at(c["d"], i) * (at(c["k"], i) - 1) + 1 for i in range(m)]
    big = [sp + v for sp, v in zip(span, ns)]
    cn = call(conv_nd, big, seq(c["k"]), seq(c["s"]), seq(c["d"]))
    cmp.same([int(v) for v in cn], [ref.n_windows(big[i], at(c["k"], i), at(c["s"], i), at(c["d"], i)) for i in range(m)],
             f"conv_nd({big},{c['k']},{c['s']},{c['d']})")
    return any(sum(w) for w in want), ["m=%d" % m, "item" if not isinstance(c["k"], list) else "list"]


@st.composite
def fmt(draw):
    nd = draw(st.integers(1, 6))
    k = draw(st.integers(0, nd))
    return {"nd": nd, "w": [[0, 0]] * (nd - k) + draw(st.lists(st.lists(st.integers(0, 9), min_size=2, max_size=2), min_size=k, max_size=k)),
            "k": k, "lists": draw(st.booleans()), "other": draw(st.sampled_from(("", "Torch", "np", "foo", "pytorch", None)))}


def run_fmt(c):
    npw = tuple(tuple(v) for v in c["w"])
    arg = [list(v) for v in c["w"]] if c["lists"] else npw
    full = tuple(v for pair in npw[::-1] for v in pair)
    got = call(pad_width_format, arg, source="numpy", target="torch")
    cmp.same(tuple(int(v) for v in got), full, f"numpy -> torch of {arg}")
    back = call(pad_width_format, got, source="torch", target="numpy", ndim=c["nd"])
    cmp.same(tuple(tuple(v) for v in back), npw, f"numpy -> torch -> numpy of {arg}")
    short = full[:2 * c["k"]]
    g2 = call(pad_width_format, list(short) if c["lists"] else short, source="torch", target="numpy", ndim=c["nd"])
    cmp.same(tuple(tuple(v) for v in g2), npw, f"torch -> numpy of {short} with ndim {c['nd']}")
    for f in ("numpy", "torch"):
        v = npw if f == "numpy" else full
        cmp.same(tuple(call(pad_width_format, v, source=f, target=f, ndim=c["nd"])), v, f"{f} -> {f}")
    # torch's own pad consumes the torch format
    x = torch.zeros([1] * c["nd"])
    y = torch.nn.functional.pad(x, [int(v) for v in got], value=1.0)
    cmp.same(list(y.shape), [1 + b + a for b, a in npw], "shape padded by torch with the converted widths")
    for src, tgt in (("numpy", c["other"]), (c["other"], "torch"), (c["other"], "numpy"), ("torch", c["other"])):
        v = full if src == "torch" else npw
        rejects(pad_width_format, v, source=src, target=tgt, ndim=c["nd"], exc=ValueError, what=f"conversion from {src!r} to {tgt!r}")
    rejects(pad_width_format, full, source="torch", target="numpy", what="torch -> numpy without a number of dimensions")
    cmp.same(tuple(call(pad_width_format, npw)), full, "default conversion is numpy -> torch")
    return any(any(v) for v in npw), ["k=%d" % c["k"]]


TESTS = [
    Test("box", run_box, enum=box),
    Test("large", run_large, strategy=large(), quick=12000),
    Test("to_same", run_same, strategy=same_axes(), quick=5000),
    Test("format", run_fmt, strategy=fmt(), quick=2500),
]
