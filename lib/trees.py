"""Nested data of every container kind (JSON trees), and a small model of ragged shapes.

The model works on plain nested lists; a leaf is anything that is not a list."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

SCALARS = st.one_of(st.integers(-9, 9), st.sampled_from(["a", "hello", "", None, 0.5, -2.25, True]))


class ModelError(Exception):
    """The model says ValueError."""


# ---------------------------------------------------------------- trees
def realize(t):
    if "v" in t:
        return t["v"]
    if "l" in t:
        return [realize(c) for c in t["l"]]
    if "t" in t:
        return tuple(realize(c) for c in t["t"])
    if "o" in t:
        a = np.empty(len(t["o"]), dtype=object)
        for i, c in enumerate(t["o"]):
            a[i] = realize(c)
        return a
    vals = arrvals(t)
    if "a" in t:
        return vals
    return torch.from_numpy(vals.copy())


def arrvals(t):
    shape = t["a"] if "a" in t else t["T"]
    n = int(np.prod(shape, dtype=int))
    v = (np.arange(n) * 7 + t["s"]) % 23
    return v.reshape(shape).astype({"f": np.float64, "i": np.int64, "b": np.bool_}[t["d"]])


def nested(t):
    """the tree as plain nested lists"""
    if "v" in t:
        return t["v"]
    for k in ("l", "t", "o"):
        if k in t:
            return [nested(c) for c in t[k]]
    return arrvals(t).tolist()


def to_nested(o):
    if isinstance(o, (list, tuple)):
        return [to_nested(c) for c in o]
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return [to_nested(c) for c in o] if o.ndim else to_nested(o.item())
        return o.tolist()
    if torch.is_tensor(o):
        return o.detach().tolist()
    if isinstance(o, np.generic):
        return o.item()
    return o


def same_nested(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same_nested(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return type(a) is type(b) and a == b or (not isinstance(a, (str, type(None))) and not isinstance(b, (str, type(None))) and a == b)
    except Exception:
        return False


def snapshot(o):
    """deep copy with container types, for checking that inputs are left alone"""
    if isinstance(o, list):
        return ["L"] + [snapshot(c) for c in o]
    if isinstance(o, tuple):
        return ["T"] + [snapshot(c) for c in o]
    if isinstance(o, np.ndarray):
        return ["A", str(o.dtype), list(o.shape)] + ([snapshot(c) for c in o.reshape(-1)] if o.dtype == object else o.reshape(-1).tolist())
    if torch.is_tensor(o):
        return ["X", str(o.dtype), list(o.shape)] + o.detach().reshape(-1).tolist()
    return copy.copy(o)


@st.composite
def arrays(draw, shape):
    return {draw(st.sampled_from("aT")): list(shape), "s": draw(st.integers(0, 30)), "d": draw(st.sampled_from("fib"))}


@st.composite
def rect(draw, shape, arrays_ok=True):
    """a tree of exactly this shape, any containers"""
    if arrays_ok and (not shape or all(shape) or len(shape) == 1) and draw(st.integers(0, 3)) == 0:
        return draw(arrays(shape))
    if not shape:
        return {"v": draw(SCALARS)}
    return {draw(st.sampled_from("lto")): [draw(rect(shape[1:])) for _ in range(shape[0])]}


@st.composite
def ragged(draw, depth, maxlen=4, minlen=0):
    """uniform depth, ragged lengths"""
    if depth == 0:
        return {"v": draw(SCALARS)} if draw(st.integers(0, 4)) else draw(arrays([]))
    if depth == 1 and draw(st.integers(0, 3)) == 0:
        return draw(arrays([draw(st.integers(minlen, maxlen))]))
    k = draw(st.integers(max(minlen, 1 if depth > 1 else minlen), maxlen))
    return {draw(st.sampled_from("llto")): [draw(ragged(depth - 1, maxlen, minlen)) for _ in range(k)]}


@st.composite
def anytree(draw, depth):
    """mixed depths"""
    c = draw(st.integers(0, 5))
    if depth == 0 or c == 0:
        return {"v": draw(SCALARS)}
    if c == 1:
        return draw(arrays(draw(st.lists(st.integers(1, 3), min_size=0, max_size=min(2, depth)))))
    k = draw(st.integers(0, 3))
    return {draw(st.sampled_from("llto")): [draw(anytree(depth - 1)) for _ in range(k)]}


TREES = st.one_of(
    st.lists(st.integers(1, 3), min_size=0, max_size=4).flatmap(lambda s: rect(tuple(s))),
    st.integers(1, 3).flatmap(ragged), anytree(3), anytree(4))


DEEP = st.one_of(
    st.lists(st.sampled_from((1, 1, 2)), min_size=4, max_size=7).flatmap(lambda s: rect(tuple(s))),
    st.integers(4, 5).flatmap(lambda d: ragged(d, 2)), anytree(5), anytree(6),
    st.tuples(st.integers(8, 40), st.integers(0, 2)).flatmap(lambda q: st.lists(ragged(q[1], 2), min_size=q[0] // 2, max_size=q[0]).map(lambda v: {"l": v})))


# ---------------------------------------------------------------- model
def shape_strict(n):
    if not isinstance(n, list):
        return ()
    if not n:
        return (0,)
    ss = [shape_strict(c) for c in n]
    if len({len(s) for s in ss}) > 1:
        return (len(n),)
    return (len(n),) + merge(ss)


def merge(ss):
    return tuple(v[0] if len(set(v)) == 1 else -1 for v in zip(*ss))


def wrap_model(n):
    """non-strict: (nested data with shallower siblings wrapped, shape, whether anything was wrapped)"""
    if not isinstance(n, list):
        return n, (), False
    if not n:
        return n, (0,), False
    rs = [wrap_model(c) for c in n]
    d = max(len(r[1]) for r in rs)
    items, shapes, mod = [], [], False
    for v, s, m in rs:
        mod = mod or m or len(s) < d
        for _ in range(d - len(s)):
            v, s = [v], (1,) + s
        items.append(v)
        shapes.append(s)
    return items, (len(n),) + merge(shapes), mod


def shape_to(n, depth):
    if depth == 0:
        return ()
    if not n:
        return (0,)
    return (len(n),) + merge([shape_to(c, depth - 1) for c in n])


def expand(n, depth, target):
    """-> (nested, shape); ModelError where the library documents ValueError"""
    k = len(target)

    def ex(m, t):
        if not t:
            return m
        items = [ex(c, t[1:]) for c in m]
        if t[0] == -1 or t[0] == len(m):
            return items
        if len(m) == 1:
            return items * t[0]
        raise ModelError(f"length {len(m)} to {t[0]}")

    if depth >= k:
        out = ex(n, (-1,) * (depth - k) + tuple(target))
        return out, shape_to(out, depth)
    out = ex(n, tuple(target)[k - depth:])
    for t in reversed(target[:k - depth]):
        out = [out] * (1 if t == -1 else t)
    return out, shape_to(out, k)
