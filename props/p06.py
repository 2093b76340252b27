"""P06 NdSpec construction and indexing"""
import numpy as np
from hypothesis import strategies as st
from torchimage.utils import NdSpec

from lib import cmp, trees
from lib.core import Test, Violation, call, rejects

ID = "P06"
RULE = ("one case = data of random containers with an item_shape (or a required index_shape), compared with a nested-list model; "
        "non-trivial = the data are a list of items, or are broadcast, or are rejected")
ASSUMPTIONS = ["no zero-size arrays of rank >= 2, no 0-d object arrays, item lengths >= 1 or -1"]

ITEM_SHAPES = ((), (2,), (-1,), (1,), (3,), (2, -1), (2, 2), (-1, -1), (-1, 2))


def look(spec, R, S, pos, what):
    cmp.same(call(lambda: tuple(spec.item_shape)), tuple(S[pos:]), what + ": item_shape")
    cmp.same(call(lambda: tuple(spec.index_shape)), tuple(S[:pos]), what + ": index_shape")
    cmp.same(call(lambda: spec.ndim), len(S), what + ": ndim")
    cmp.same(call(lambda: spec.item_ndim), len(S) - pos, what + ": item_ndim")
    cmp.same(call(lambda: spec.index_ndim), pos, what + ": index_ndim")
    cmp.same(bool(call(lambda: spec.is_item)), pos == 0, what + ": is_item")
    cmp.same(call(len, spec), 0 if pos == 0 else S[0], what + ": len")
    its = call(lambda: [v for v in spec])
    if pos == 0:
        for i in (0, 1, -1, 5, -81, 10 ** 6):
            nest(call(spec.__getitem__, i), R, f"{what}[{i}]")
        nest(call(spec.__getitem__, (0, 3)), R, f"{what}[0, 3]")
        cmp.same(len(its), 1, what + ": items iterated")
        nest(its[0], R, what + ": iteration")
        return
    n = S[0]
    cmp.same(len(its), n, what + ": items iterated")
    for i in range(-n, n):
        nest(call(spec.__getitem__, i), R[i], f"{what}[{i}]")
        nest(call(spec.__getitem__, (i,)), R[i], f"{what}[({i},)]")
        nest(call(spec.__getitem__, np.int64(i)), R[i], f"{what}[numpy {i}]")
        if i >= 0:
            nest(its[i], R[i], f"{what}: item {i} iterated")
        if pos >= 2:
            m = len(R[i])
            for j in range(-m, m):
                nest(call(spec.__getitem__, (i, j)), R[i][j], f"{what}[{i}, {j}]")
                for k in range(-len(R[i][j]), len(R[i][j])) if pos >= 3 else ():
                    nest(call(spec.__getitem__, (i, j, k)), R[i][j][k], f"{what}[{i}, {j}, {k}]")
    for cut in () if not isinstance(spec.data, (list, tuple)) else (slice(None), slice(1, None), slice(None, None, -1), slice(-2, None), slice(0, n, 2), slice(n, None), slice(None, -1)):
        # a slice names the items a list slice would
        try:
            got = spec[cut]
        except Exception as e:
            raise Violation(f"{what}[{cut}] raised {type(e).__name__}: {e}")
        nest(got, R[cut], f"{what}[{cut}]")
    for i in (n, -n - 1, n + 7):
        rejects(spec.__getitem__, i, exc=IndexError, what=f"{what}[{i}] of length {n}")
        rejects(spec.__getitem__, np.int64(i), exc=IndexError, what=f"{what}[numpy {i}] of length {n}")
        rejects(spec.__getitem__, (i,), exc=IndexError, what=f"{what}[({i},)] of length {n}")
    rejects(spec.__getitem__, (0,) * (pos + 1), exc=IndexError, what=f"{what} with {pos + 1} indices for {pos} index dimensions")


def nest(o, want, what):
    if not trees.same_nested(trees.to_nested(o), want):
        raise Violation(f"{what}: {trees.to_nested(o)}, expected {want}")


@st.composite
def cases(draw):
    item = draw(st.sampled_from(ITEM_SHAPES))
    kind = draw(st.sampled_from(("item", "partial", "list", "list", "grid", "ragged", "any", "empty", "list", "long", "item", "partial", "grid", "grid3", "any")))
    conc = [draw(st.integers(1, 3)) if v == -1 else v for v in item]
    if kind == "item":
        shape = conc
    elif kind == "partial":
        k = draw(st.integers(0, len(conc)))
        shape = [1 if draw(st.booleans()) else v for v in conc[k:]]
    elif kind == "list":
        shape = [draw(st.integers(1, 4))] + [1 if draw(st.integers(0, 3)) == 0 else v for v in conc]
    elif kind == "grid":
        shape = [draw(st.integers(1, 3)), draw(st.integers(1, 3))] + conc
    elif kind == "grid3":
        shape = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(3, 4)))] + conc
    else:
        shape = None
    if kind == "long":
        rest = [1 if draw(st.integers(0, 2)) == 0 else v for v in conc]
        n = draw(st.integers(5, 40))
        t = draw(trees.arrays([n] + rest)) if draw(st.booleans()) else {draw(st.sampled_from("lto")): [draw(trees.arrays(rest)) if i % 5 == 2 else {"v": i} if not rest else
                                                                                                       draw(trees.rect(tuple(rest))) for i in range(n)]}
    elif shape is not None:
        t = draw(trees.rect(tuple(shape)))
    elif kind == "ragged":
        t = draw(trees.ragged(min(3, len(item) + draw(st.integers(0, 1))) or 1, 3))
    elif kind == "empty":
        t = draw(st.sampled_from([{"l": []}, {"t": []}, {"a": [0], "s": 0, "d": "f"}, {"l": [{"l": []}, {"l": []}]}]))
    else:
        t = draw(trees.anytree(3))
    return {"data": t, "item": list(item), "kind": kind}


def run(c):
    t = c["data"]
    data, n = trees.realize(t), trees.nested(t)
    item = tuple(c["item"])
    before = trees.snapshot(data)
    S0 = trees.shape_strict(n)
    what = f"NdSpec({n}, item_shape={item})"
    try:
        R, S = trees.expand(n, len(S0), item)
        bad = any(a == 0 and b > 0 for a, b in zip(S0[::-1], item[::-1]))
    except trees.ModelError:
        bad = True
    if bad:
        rejects(NdSpec, data, item_shape=item, exc=ValueError, what=what)
        return True, ["rejected"]
    spec = call(NdSpec, data, item_shape=item if c["kind"] != "grid" else list(item))
    pos = len(S) - len(item)
    look(spec, R, S, pos, what)
    if R == n and isinstance(data, (list, tuple)):
        if pos == 0:
            cmp.is_true(spec[0] is data, what + ": the item is not the identical object")
        elif pos == 1:
            for i in range(len(data)):
                cmp.is_true(spec[i] is data[i], what + f": item {i} is not the identical object")
    two = call(NdSpec, spec, item_shape=(7,))
    look(two, R, S, pos, "copy of " + what)
    cmp.is_true(trees.snapshot(data) == before, what + ": input modified")
    return pos > 0 or R != n, ["kind=" + c["kind"], "pos=%d" % pos, "broadcast" if R != n else "kept", "nest=%d" % len(item)]


@st.composite
def required(draw):
    t = draw(trees.TREES)
    s = trees.shape_strict(trees.nested(t))
    k = draw(st.integers(0, len(s)))
    idx = [draw(st.sampled_from((v, v, -1, 2))) for v in s[:k]]
    if draw(st.integers(0, 6)) == 0:
        idx = idx + [draw(st.integers(1, 3))]
    return {"data": t, "idx": idx}


def run_required(c):
    t = c["data"]
    data, n = trees.realize(t), trees.nested(t)
    idx = tuple(c["idx"])
    S = trees.shape_strict(n)
    what = f"NdSpec({n}, index_shape={idx})"
    if len(S) < len(idx) or not all(v == -1 or v == w for v, w in zip(idx, S)):
        rejects(NdSpec, data, index_shape=idx, exc=ValueError, what=what)
        return True, ["rejected"]
    spec = call(NdSpec, data, index_shape=idx)
    look(spec, n, S, len(idx), what)
    return len(idx) > 0, ["pos=%d" % len(idx)]


TESTS = [
    Test("item_shape", run, strategy=cases(), quick=12000),
    Test("index_shape", run_required, strategy=required(), quick=6000),
]
