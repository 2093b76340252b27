"""P07 NdSpec map / starmap / zip / apply"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.utils import NdSpec

from lib import cmp, trees
from lib.core import Test, Violation, call, rejects

ID = "P07"
RULE = ("one case = one to four specs (items, lists, grids of items) and a function; non-trivial = some spec has an index shape")
ASSUMPTIONS = ["apply and zip on rectangular index shapes; function results share one nesting depth when the index has 2 dimensions"]


def nest(o, want, what):
    if not trees.same_nested(trees.to_nested(o), want):
        raise Violation(f"{what}: {trees.to_nested(o)}, expected {want}")


# functions of the (nested) arguments; each returns what to return and its nested form
def f_pair(*a):
    return ("f",) + tuple(trees.to_nested(v) if not isinstance(trees.to_nested(v), list) else len(trees.to_nested(v)) for v in a)


def f_first(*a):
    return a[0]


def f_str(*a):
    return "|".join(str(trees.to_nested(v)) for v in a)


def f_none(*a):
    return None


def _num(v):
    v = trees.to_nested(v)
    if isinstance(v, list):
        return sum(_num(u) * (i + 1) for i, u in enumerate(v))
    return len(v) + 0.5 if isinstance(v, str) else 1.25 if v is None else float(v)


def f_num(*a):
    return sum(_num(v) * (10 ** i) for i, v in enumerate(a))


def f_list(*a):
    return [_num(v) for v in a] + [0.0]


def f_np(*a):
    return np.array([_num(v) for v in a])


def f_torch(*a):
    return torch.tensor([_num(v) for v in a], dtype=torch.float64)


def f_ragged(*a):  # lengths depend on the values
    return [1.0] * (1 + int(abs(f_num(*a))) % 3)


def f_depth(*a):  # depth depends on the values
    k = int(abs(f_num(*a))) % 3
    return [5, [6], [[7, 8]]][k]


def f_neg(*a):
    return -f_num(*a)


FUNCS = {f.__name__: f for f in (f_pair, f_first, f_str, f_none, f_num, f_list, f_np, f_torch, f_ragged, f_depth, f_neg)}


@st.composite
def spec_tree(draw, idx, item_shape):
    if not item_shape and draw(st.integers(0, 2)):
        leaf = lambda: {"v": draw(trees.SCALARS)}
    else:
        leaf = lambda: draw(trees.rect(tuple(item_shape)))

    def level(s):
        if not s:
            return leaf()
        return {draw(st.sampled_from("lt")): [level(s[1:]) for _ in range(s[0])]}
    if idx and draw(st.integers(0, 5)) == 0:
        return draw(trees.arrays(list(idx) + list(item_shape)))
    return level(list(idx))


@st.composite
def cases(draw):
    idx = draw(st.sampled_from(([], [1], [2], [3], [4], [2, 3], [1, 2], [3, 1], [7], [2, 2, 3], [1, 3, 2], [11], [23], [2, 1, 1, 2], [0], [2, 0], [2, 3, 0])))
    k = draw(st.integers(1, 4))
    specs = []
    for _ in range(k):
        item = draw(st.sampled_from(([], [], [2], [3])))
        own = idx if draw(st.booleans()) else []
        if 0 in own:
            item = []
        specs.append({"data": draw(spec_tree(own, item)), "item": item, "idx": own})
    fns = [f for f in FUNCS if f != "f_depth" or len(idx) < 2]
    return {"specs": specs, "f": draw(st.sampled_from(fns)), "agg": draw(st.booleans())}


def cells(idx):
    return list(np.ndindex(*idx))


def getn(n, i):
    for k in i:
        n = n[k]
    return n


def put(idx, values):
    """nested list of the index shape, from values in row-major order"""
    it = iter(values)

    def level(s):
        return next(it) if not s else [level(s[1:]) for _ in range(s[0])]
    return level(list(idx))


def read(spec, idx, want, what):
    """spec must hold want[i] at every index i"""
    cmp.same(call(lambda: tuple(spec.index_shape)), tuple(idx), what + ": index_shape")
    if not idx:
        for i in (0, 3, -2):
            nest(call(spec.__getitem__, i), want[()], f"{what}[{i}]")
        return
    for i in cells(idx):
        nest(call(spec.__getitem__, i), want[i], f"{what}[{i}]")
    if len(idx) == 1:
        for i in range(-idx[0], idx[0]):
            nest(call(spec.__getitem__, i), want[(i % idx[0],)], f"{what}[{i}]")


def run(c):
    fname = c["f"]
    f = FUNCS[fname]
    datas = [trees.realize(s["data"]) for s in c["specs"]]
    before = [trees.snapshot(d) for d in datas]
    nests = [trees.nested(s["data"]) for s in c["specs"]]
    specs = [call(NdSpec, d, item_shape=tuple(s["item"])) for d, s in zip(datas, c["specs"])]
    for s, d in zip(specs, c["specs"]):
        if tuple(s.index_shape) != tuple(d["idx"]):  # random leaves of the wrong depth cannot occur
            raise RuntimeError("generator produced an unexpected index shape")
    # map / starmap on each
    for s, d, n in zip(specs, c["specs"], nests):
        idx = d["idx"]
        log = []

        def g(v):
            log.append(trees.to_nested(v))
            return f(v)
        r = call(s.map, g)
        items = {i: getn(n, i) for i in cells(idx)}
        cmp.same(log, [items[i] for i in cells(idx)], "map: the function is called once per item, in order")
        read(r, idx, {i: trees.to_nested(f(v)) for i, v in items.items()}, f"{n}.map({fname})")
        if d["item"]:
            log.clear()

            def h(*v):
                log.append([trees.to_nested(u) for u in v])
                return f(*v)
            r = call(s.starmap, h)
            cmp.same(log, [items[i] for i in cells(idx)], "starmap: the function is called once per unpacked item")
            read(r, idx, {i: trees.to_nested(f(*v)) for i, v in items.items()}, f"{n}.starmap({fname})")
    # apply / zip over all
    idx = next((d["idx"] for d in c["specs"] if d["idx"]), [])
    args = {i: [getn(n, i) if d["idx"] else n for n, d in zip(nests, c["specs"])] for i in cells(idx)}
    log = []

    def g(*v):
        log.append([trees.to_nested(u) for u in v])
        return f(*v)
    r = call(NdSpec.apply, g, *specs)
    cmp.same(log, [args[i] for i in cells(idx)], "apply: the function is called once per index with the items in argument order")
    read(r, idx, {i: trees.to_nested(f(*v)) for i, v in args.items()}, f"apply({fname}, {nests})")
    z = call(NdSpec.zip, *specs)
    read(z, idx, {i: v for i, v in args.items()}, f"zip({nests})")
    if idx and 0 not in idx:
        cmp.is_true(isinstance(call(z.__getitem__, (0,) * len(idx)), tuple), "zip items are not tuples")
    cmp.same(tuple(call(NdSpec.agg_index_shape, *specs)), tuple(idx), "agg_index_shape")
    kw = {"allowed_index_ndim": (0, len(idx))} if c["agg"] else {}
    cmp.same(call(NdSpec.agg_index_len, *specs, **kw), idx[0] if idx else 0, "agg_index_len")
    present = {len(d["idx"]) for d in c["specs"]}
    allowed = sorted(present | {0, 5})
    cmp.same(call(NdSpec.agg_index_len, *specs, allowed_index_ndim=allowed), idx[0] if idx else 0, f"agg_index_len with {allowed} allowed")
    for gone in present:
        few = tuple(v for v in (0, 1, 2, 3) if v != gone)
        rejects(NdSpec.agg_index_len, *specs, allowed_index_ndim=few, what=f"agg_index_len of index ndims {present} with {few} allowed")
    for s, d, n in zip(specs, c["specs"], nests):
        read(s, d["idx"], {i: getn(n, i) for i in cells(d["idx"])}, "argument after the operations")
    cmp.is_true([trees.snapshot(d) for d in datas] == before, "data of the arguments modified")
    return bool(idx), ["idx=%d" % len(idx), "f=" + fname, "mixed" if len({tuple(d["idx"]) for d in c["specs"]}) > 1 else "uniform"]


@st.composite
def clash(draw):
    a, b = draw(st.sampled_from([([2], [3]), ([1], [2]), ([3], [1]), ([2, 3], [2]), ([2, 3], [3]), ([2, 3], [3, 2]), ([1], [4]), ([2, 1], [2, 2])]))
    extra = draw(st.lists(st.sampled_from(([], a, b)), max_size=2))
    order = draw(st.permutations([a, b] + extra))
    return {"idx": [list(o) for o in order]}


def run_clash(c):
    specs = [call(NdSpec, np.arange(int(np.prod(i, dtype=int))).reshape(i).tolist() if i else 5) for i in c["idx"]]
    for nm, f in (("agg_index_shape", NdSpec.agg_index_shape), ("agg_index_len", NdSpec.agg_index_len), ("zip", NdSpec.zip),
                  ("apply", lambda *s: NdSpec.apply(f_first, *s))):
        rejects(f, *specs, exc=ValueError, what=f"{nm} of index shapes {c['idx']}")
        rejects(f, exc=ValueError, what=f"{nm} of no specs")
    rejects(NdSpec.agg_index_shape, specs[0], 3, exc=ValueError, what="agg_index_shape of a non-spec")
    return True, ["n=%d" % len(c["idx"])]


@st.composite
def raggedidx(draw):
    return {"lens": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)), "s": draw(st.integers(0, 9))}


def run_ragged(c):
    data, k = [], c["s"]
    for n in c["lens"]:
        data.append([k + i for i in range(n)])
        k += n
    spec = call(NdSpec, data)
    r = call(spec.map, lambda v: v * 2 + 1)
    for i, row in enumerate(data):
        nest(call(r.__getitem__, i), [v * 2 + 1 for v in row], f"map over ragged {data}[{i}]")
        for j, v in enumerate(row):
            nest(call(r.__getitem__, (i, j)), v * 2 + 1, f"map over ragged {data}[{i},{j}]")
    cmp.same(tuple(r.index_shape), tuple(spec.index_shape), "index shape")
    return len(set(c["lens"])) > 1, ["rows=%d" % len(c["lens"])]


TESTS = [
    Test("ops", run, strategy=cases(), quick=7000),
    Test("clash", run_clash, strategy=clash(), quick=400),
    Test("ragged_map", run_ragged, strategy=raggedidx(), quick=800),
]
