"""P08 ragged arrays"""
import numpy as np
from hypothesis import strategies as st
from torchimage.utils.ragged import apply_ragged_ndarray, expand_ragged_ndarray, get_ragged_ndarray

from lib import cmp, trees
from lib.core import Test, Violation, call, rejects

ID = "P08"
RULE = ("one case = nested data of lists, tuples, numpy and object arrays and tensors with a target shape; non-trivial = depth "
        ">= 2 or mixed depths, and for expansion at least one dimension really grows or is rejected")
ASSUMPTIONS = ["no zero-size arrays of rank >= 2, no 0-d object arrays, target lengths >= 1 or -1"]


def depth_mix(n):
    ds = set()

    def go(m, d):
        if isinstance(m, list):
            if not m:
                ds.add(d + 1)
            for c in m:
                go(c, d + 1)
        else:
            ds.add(d)
    go(n, 0)
    return ds


def run_shape(c):
    t = c["data"]
    data, n = trees.realize(t), trees.nested(t)
    before = trees.snapshot(data)
    got, shape = call(get_ragged_ndarray, data, strict=True)
    cmp.is_true(got is data, "strict mode does not return the identical object")
    cmp.same(tuple(shape), trees.shape_strict(n), f"strict shape of {n}")
    got, shape = call(get_ragged_ndarray, data, strict=False)
    want, wshape, mod = trees.wrap_model(n)
    cmp.same(tuple(shape), wshape, f"non-strict shape of {n}")
    if not trees.same_nested(trees.to_nested(got), want):
        raise Violation(f"non-strict data of {n}: {trees.to_nested(got)}, expected {want}")
    if not mod:
        cmp.is_true(got is data, f"non-strict data of {n} need no wrapping but are another object")
    cmp.is_true(trees.snapshot(data) == before, "input modified")
    ds = depth_mix(n)
    return max(ds) >= 2 or len(ds) > 1, ["mixed" if len(ds) > 1 else "uniform", "wrapped" if mod else "kept", "depth=%d" % max(ds)]


@st.composite
def expansion(draw):
    nonstrict = draw(st.integers(0, 4)) == 0
    t = draw(st.one_of(st.lists(st.integers(1, 3), min_size=0, max_size=3).flatmap(lambda s: trees.rect(tuple(s))),
                       st.lists(st.sampled_from((1, 1, 1, 2)), min_size=1, max_size=4).flatmap(lambda s: trees.rect(tuple(s))),
                       st.integers(1, 3).flatmap(trees.ragged), st.integers(1, 3).flatmap(lambda d: trees.ragged(d, 2)),
                       trees.anytree(3), trees.DEEP))
    n = trees.nested(t)
    s = trees.wrap_model(n)[1] if nonstrict else trees.shape_strict(n)
    target = []
    for v in s:
        k = draw(st.integers(0, 7))
        if k == 0:
            target.append(-1)
        elif k == 1:
            target.append(draw(st.integers(1, 4)))
        elif v == 1 or v == -1:
            target.append(draw(st.integers(1, 4)))
        else:
            target.append(v if v > 0 else -1)
    cut = draw(st.integers(0, len(target))) if draw(st.integers(0, 2)) == 0 else 0
    lead = draw(st.lists(st.sampled_from((-1, 1, 2, 3)), max_size=2)) if not cut else []
    return {"data": t, "target": lead + target[cut:], "nonstrict": nonstrict}


def run_expand(c):
    t = c["data"]
    data, n = trees.realize(t), trees.nested(t)
    data, shape = call(get_ragged_ndarray, data, strict=not c["nonstrict"])
    if c["nonstrict"]:
        n, ms, _ = trees.wrap_model(n)
    else:
        ms = trees.shape_strict(n)
    before = trees.snapshot(data)
    target = c["target"]
    what = f"expand {n} of shape {tuple(shape)} to {target}"
    try:
        want, wshape = trees.expand(n, len(ms), target)
    except trees.ModelError:
        rejects(expand_ragged_ndarray, data, shape, target, exc=ValueError, what=what)
        cmp.is_true(trees.snapshot(data) == before, what + ": input modified")
        return True, ["rejected"]
    got, gshape = call(expand_ragged_ndarray, data, shape, target)
    if not trees.same_nested(trees.to_nested(got), want):
        raise Violation(f"{what}: {trees.to_nested(got)}, expected {want}")
    cmp.same(tuple(int(v) for v in gshape), wshape, what + ": reported shape")
    cmp.is_true(trees.snapshot(data) == before, what + ": input modified")
    labels = ["grown" if want != n else "kept"]
    if ms and -1 not in ms and depth_mix(n) == {len(ms)}:  # rectangular
        full = [(1 if v == -1 else v) for v in target[:max(0, len(target) - len(ms))]]
        tail = target[len(full):]
        tail = [-1] * (len(ms) - len(tail)) + tail
        full += [o if v == -1 else v for v, o in zip(tail, ms)]
        src = np.empty(int(np.prod(ms)), dtype=object)
        src[:] = list(flat(n))
        ref = np.broadcast_to(src.reshape(ms), full)
        if ref.tolist() != want:
            raise RuntimeError(f"model disagrees with numpy.broadcast_to for {what}")
        labels.append("numpy")
    return want != n or -1 in ms, labels


def flat(n):
    if isinstance(n, list):
        for c in n:
            yield from flat(c)
    else:
        yield n


@st.composite
def application(draw):
    d = draw(st.integers(1, 3))
    t = draw(st.one_of(trees.ragged(d), st.lists(st.integers(1, 3), min_size=d, max_size=d).flatmap(lambda s: trees.rect(tuple(s)))))
    return {"data": t, "depth": draw(st.integers(0, d))}


def run_apply(c):
    data, n = trees.realize(c["data"]), trees.nested(c["data"])
    before = trees.snapshot(data)
    log = []

    def f(item):
        v = trees.to_nested(item)
        log.append(v)
        return {"got": v}

    def model(m, d):
        return {"got": m} if d == 0 else [model(k, d - 1) for k in m]

    def order(m, d):
        if d == 0:
            yield m
        else:
            for k in m:
                yield from order(k, d - 1)

    def plain(o, d):
        return o if d == 0 else [plain(k, d - 1) for k in o]
    got = call(apply_ragged_ndarray, data, f, c["depth"])
    cmp.same(plain(got, c["depth"]), model(n, c["depth"]), f"apply at depth {c['depth']} of {n}")
    cmp.same(log, list(order(n, c["depth"])), "order and number of calls")
    cmp.is_true(trees.snapshot(data) == before, "input modified")
    for bad in (-1, -2, 0.5, 1.0, None, "1"):
        rejects(apply_ragged_ndarray, data, f, bad, exc=ValueError, what=f"depth {bad!r}")
    n_calls = len(log)
    for depth in (np.int64(c["depth"]), True if c["depth"] == 1 else c["depth"]):  # anything that is an index
        call(apply_ragged_ndarray, data, f, depth)
    cmp.same(log[n_calls:], log[:n_calls] * 2, "order and number of calls with a numpy depth")
    return c["depth"] >= 1, ["depth=%d" % c["depth"]]


TESTS = [
    Test("shape", run_shape, strategy=st.fixed_dictionaries({"data": trees.TREES}), quick=9000),
    Test("deep", run_shape, strategy=st.fixed_dictionaries({"data": trees.DEEP}), quick=1500),
    Test("expand", run_expand, strategy=expansion(), quick=12000),
    Test("apply", run_apply, strategy=application(), quick=3000),
]
