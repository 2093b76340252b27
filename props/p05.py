"""P05 receptive-field counts"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.shapes.conv_like import n_original_elements_1d, n_original_elements_nd

from lib import cmp, gen, ref
from lib.core import Test, call

ID = "P05"
RULE = ("one case = (in_size, before, after, kernel, stride), exhaustive in a box, random beyond it and in several dimensions; "
        "non-trivial = some window contains both original and padded elements")
ASSUMPTIONS = ["in_size >= 1, kernel >= 1, stride >= 1"]


def count(n, b, a, k, s):
    mask = np.concatenate([np.zeros(b, int), np.ones(n, int), np.zeros(a, int)])
    return [int(mask[i:i + k].sum()) for i in range(0, n + a + b - k + 1, s)]


def one(n, b, a, k, s):
    got = call(n_original_elements_1d, n, (b, a), k, s)
    want = count(n, b, a, k, s)
    cmp.same([int(v) for v in got], want, f"n_original_elements_1d({n}, {(b, a)}, {k}, {s})")
    return any(0 < v < k for v in want)


def box(tier):
    N, W, K, S = (7, 6, 8, 6) if tier == "quick" else (10, 11, 12, 9)
    for n in range(1, N + 1):
        for b in range(W + 1):
            for a in range(W + 1):
                yield {"n": n, "b": b, "a": a, "K": K, "S": S}


def run_box(c):
    nt = False
    for k in range(1, c["K"] + 1):
        for s in range(1, c["S"] + 1):
            nt |= one(c["n"], c["b"], c["a"], k, s)
    return nt, ["k*s=%d" % (c["K"] * c["S"])]


@st.composite
def large(draw):
    i = st.one_of(st.integers(1, 20), st.integers(1, 300))
    z = st.one_of(st.integers(0, 20), st.integers(0, 150))
    return {"n": draw(i), "b": draw(z), "a": draw(z), "k": draw(i), "s": draw(st.one_of(st.integers(1, 8), st.integers(1, 80)))}


def run_large(c):
    nt = one(c["n"], c["b"], c["a"], c["k"], c["s"])
    return nt, ["b>k" if c["b"] > c["k"] else "b<=k", "k>n" if c["k"] > c["n"] else "k<=n", "s>k" if c["s"] > c["k"] else "s<=k"]


@st.composite
def multi(draw):
    m = draw(st.integers(1, 4))
    per = lambda item: draw(st.lists(item, min_size=m, max_size=m)) if draw(st.booleans()) else draw(item)
    return {"m": m, "n": draw(st.lists(st.integers(1, 7), min_size=m, max_size=m)),
            "w": per(st.lists(st.integers(0, 5), min_size=2, max_size=2)), "k": per(st.integers(1, 5)), "s": per(st.integers(1, 4)),
            "dt": draw(st.sampled_from((None, "f64", "f32", "i64")))}


def run_multi(c):
    m = c["m"]
    at = lambda p, i: p[i] if isinstance(p, list) else p
    ws = [tuple(v) for v in c["w"]] if isinstance(c["w"][0], list) else [tuple(c["w"])] * m
    per = [count(c["n"][i], ws[i][0], ws[i][1], at(c["k"], i), at(c["s"], i)) for i in range(m)]
    kw = {} if c["dt"] is None else {"dtype": gen.td(c["dt"])}
    w = [tuple(v) for v in c["w"]] if isinstance(c["w"][0], list) else tuple(c["w"])
    got = call(n_original_elements_nd, in_size=c["n"], pad_width=w, kernel_size=c["k"], stride=c["s"], **kw)
    want = np.ones(())
    for v in per:
        want = np.multiply.outer(want, np.array(v, dtype=np.float64))
    cmp.equal(got, want, f"n_original_elements_nd({c['n']}, {w}, {c['k']}, {c['s']})",
              dtype=gen.td(c["dt"]) if c["dt"] else torch.int32)
    return any(0 < v < at(c["k"], i) for i in range(m) for v in per[i]), ["m=%d" % m, "dt=%s" % c["dt"]]


@st.composite
def wide(draw):
    """few windows, but of so many elements that their number exceeds 32 bits"""
    m = draw(st.integers(2, 4))
    axes = []
    for _ in range(m):
        n = draw(st.one_of(st.integers(1, 4), st.integers(1000, 4000), st.integers(1000, 4000)))
        b, a = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        axes.append((n, [b, a], max(1, n + b + a - draw(st.integers(0, 5))), draw(st.integers(1, 3))))
    return {"m": m, "n": [v[0] for v in axes], "w": [v[1] for v in axes], "k": [v[2] for v in axes], "s": [v[3] for v in axes],
            "dt": draw(st.sampled_from(("f64", "i64", "f32")))}


def run_wide(c):
    per = [count(n, w[0], w[1], k, s) for n, w, k, s in zip(c["n"], c["w"], c["k"], c["s"])]
    want = np.ones(())
    for v in per:
        want = np.multiply.outer(want, np.array(v, dtype=np.float64))  # exact below 2 ** 53
    if np.max(want) >= 2 ** 53:
        return False, ["beyond 2 ** 53"]
    got = call(n_original_elements_nd, in_size=c["n"], pad_width=[tuple(w) for w in c["w"]], kernel_size=c["k"], stride=c["s"], dtype=gen.td(c["dt"]))
    cmp.close(got, want, f"n_original_elements_nd({c['n']}, {c['w']}, {c['k']}, {c['s']}, dtype={c['dt']})", dtype=gen.td(c["dt"]), ulp=8, elementwise=True)
    return bool(np.max(want) >= 2 ** 31), ["m=%d" % c["m"], c["dt"]]


def run_large_twice(c):
    got = call(n_original_elements_1d, c["n"], (c["b"], c["a"]), c["k"], c["s"])
    if isinstance(got, list):  # what a caller does to its list stays with the caller
        got[:] = [-1] * (len(got) + 1)
    return run_large(c)


TESTS = [
    Test("box", run_box, enum=box),
    Test("large", run_large_twice, strategy=large(), quick=16000),
    Test("nd", run_multi, strategy=multi(), quick=4000),
    Test("wide", run_wide, strategy=wide(), quick=600),
]
