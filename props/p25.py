"""P25 random_crop"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.random import random_crop

from lib import cmp, gen
from lib.core import Test, Violation, call
from props.p16 import axes_form, axes_value

ID = "P25"
RULE = ("one case = one crop call with a seeded generator (window test), or one tensor cropped under many seeds (offsets test); "
        "non-trivial = at least one listed axis has two or more possible offsets")
ASSUMPTIONS = ["sizes between 0 and the axis length; axes distinct",
               "uniformity is judged on 400 draws per configuration with a false-alarm probability below 1e-12 per cell"]


@st.composite
def conf(draw, hi=7, nd=4):
    shape = draw(gen.shapes(1, nd, 1, hi, 400))
    if draw(st.integers(0, 7)) == 0:  # one long axis
        shape = [draw(st.integers(20, 700) | st.sampled_from((1025, 4100, 33000, 70000))) for _ in range(1)] + draw(st.sampled_from([[], [2], [1]]))
        if draw(st.booleans()):
            shape.reverse()
    af = draw(axes_form(len(shape)))
    axes = axes_value(af, len(shape))[1]
    size = [draw(st.one_of(st.none(), st.integers(1, shape[a]), st.just(shape[a]), st.integers(0, shape[a]))) for a in axes]
    form = "list"
    if draw(st.integers(0, 2)) == 0 and axes:
        size = draw(st.one_of(st.none(), st.integers(1, min(shape[a] for a in axes))))
        form = "scalar"
    elif draw(st.booleans()):
        form = draw(st.sampled_from(("tuple", "list")))
    return shape, af, axes, size, form


def size_arg(size, form):
    return tuple(size) if form == "tuple" else size


def per_axis(size, axes, form):
    return [size] * len(axes) if form == "scalar" else size


@st.composite
def r_window(draw):
    shape, af, axes, size, form = draw(conf())
    return {"shape": shape, "af": af, "axes": axes, "size": size, "form": form, "seed": draw(st.integers(0, 2 ** 40)),
            "gen": draw(st.booleans()), "layout": draw(gen.layouts(len(shape), expand=False))}


def offsets(y, shape, what):
    """the window's offsets, from a tensor whose values encode the index; checks the window is contiguous and aligned"""
    if y.size == 0:
        return None
    first = np.unravel_index(int(y.ravel()[0]), shape)
    win = tuple(slice(int(o), int(o) + n) for o, n in zip(first, y.shape))
    full = np.arange(int(np.prod(shape, dtype=int))).reshape(shape)[win]
    if full.shape != y.shape or not np.array_equal(full, y):
        raise Violation(f"{what}: the result is not one contiguous aligned window")
    return [int(o) for o in first]


def run_window(c):
    shape = tuple(c["shape"])
    a = np.arange(int(np.prod(shape, dtype=int)), dtype=np.int64).reshape(shape)
    x = gen.tensor_of(a, c["layout"])
    per = per_axis(c["size"], c["axes"], c["form"])
    want = list(shape)
    for ax, s in zip(c["axes"], per):
        if s is not None:
            want[ax] = s
    what = f"random_crop(shape {shape}, axes {c['af']['k']}:{c['axes']}, size {c['size']!r})"

    def draw():
        g = torch.Generator().manual_seed(c["seed"]) if c["gen"] else None
        if g is None:
            torch.manual_seed(c["seed"])
        state = torch.get_rng_state()
        y = call(random_crop, x, axes_value(c["af"], len(shape))[0], size_arg(c["size"], c["form"]), generator=g)
        if g is not None:
            cmp.is_true(torch.equal(state, torch.get_rng_state()), what + ": the global random state changed although a generator was given")
        return y
    y = draw()
    cmp.shape_is(y, want, what)
    cmp.same_dtype(y, torch.int64, what)
    off = offsets(y.numpy(), shape, what)
    if off is not None:
        for i in range(len(shape)):
            if i not in c["axes"] and off[i] != 0:
                raise Violation(f"{what}: offset {off[i]} on unlisted axis {i}")
    torch.manual_seed(c["seed"] // 3 + 1)
    z = draw()
    cmp.equal(z, y.numpy(), what + ": second call with the same seed")
    cmp.equal(x, a, what + ": x afterwards")
    free = [s is not None and s < shape[ax] for ax, s in zip(c["axes"], per)]
    return any(free), ["nd=%d" % len(shape), "free=%d" % sum(free), c["form"], "gen" if c["gen"] else "global",
                       "none" if None in per else "-", "whole" if any(s == shape[ax] for ax, s in zip(c["axes"], per)) else "-"]


@st.composite
def r_offsets(draw):
    shape, af, axes, size, form = draw(conf(6, 3))
    return {"shape": shape, "af": af, "axes": axes, "size": size, "form": form, "seed": draw(st.integers(0, 2 ** 40)), "n": 400}


def run_offsets(c):
    shape = tuple(c["shape"])
    a = np.arange(int(np.prod(shape, dtype=int)), dtype=np.int64).reshape(shape)
    x = torch.from_numpy(a)
    per = per_axis(c["size"], c["axes"], c["form"])
    what = f"random_crop(shape {shape}, axes {c['af']['k']}:{c['axes']}, size {c['size']!r})"
    free = [(ax, shape[ax] - s + 1) for ax, s in zip(c["axes"], per) if s is not None and 0 < s < shape[ax]]
    if not free or any(s == 0 for s in per):
        return False, ["no free axis"]
    g = torch.Generator().manual_seed(c["seed"])
    N = c["n"]
    rows = []
    for _ in range(N):
        y = call(random_crop, x, axes_value(c["af"], len(shape))[0], size_arg(c["size"], c["form"]), generator=g)
        rows.append(offsets(y.numpy(), shape, what))
    rows = np.array(rows)
    if np.any(rows < 0) or any(np.any(rows[:, ax] >= k) for ax, k in free):
        raise Violation(f"{what}: offsets outside the range")
    bins = {ax: np.arange(k) if k <= 12 else np.arange(k) * 8 // k for ax, k in free}
    for ax, k in free:
        if k > 12:
            cnt = np.bincount(bins[ax][rows[:, ax]], minlength=8)
            for o in range(8):
                p, L = float(np.mean(bins[ax] == o)), 30.0
                if abs(cnt[o] - N * p) > np.sqrt(2 * N * p * (1 - p) * L) + 2 * L / 3:
                    raise Violation(f"{what}: offsets on axis {ax} by eighths of the range: {cnt.tolist()}")
            if len(set(rows[:, ax].tolist())) < min(k, N) // 4:
                raise Violation(f"{what}: only {len(set(rows[:, ax].tolist()))} of {k} offsets on axis {ax} in {N} draws")
            continue
        cnt = np.bincount(rows[:, ax], minlength=k)
        if len(cnt) > k:
            raise Violation(f"{what}: offset {len(cnt) - 1} on axis {ax}")
        # Bernstein bound at 1e-13 per cell
        p, L = 1 / k, 30.0
        dev = np.sqrt(2 * N * p * (1 - p) * L) + 2 * L / 3
        for o in range(k):
            if abs(cnt[o] - N * p) > dev:
                raise Violation(f"{what}: offset {o} on axis {ax} occurred {cnt[o]} times in {N} draws, expected {N * p:.0f}")
    for i in range(len(free)):
        for j in range(i):
            (a1, k1), (a2, k2) = free[i], free[j]
            if max(k1, k2) > 12:
                continue
            p, L = 1 / (k1 * k2), 30.0
            dev = np.sqrt(2 * N * p * (1 - p) * L) + 2 * L / 3
            cell = np.zeros((k1, k2), int)
            np.add.at(cell, (rows[:, a1], rows[:, a2]), 1)
            if np.any(np.abs(cell - N * p) > dev):
                raise Violation(f"{what}: offsets on axes {a1} and {a2} are not independent: {cell.tolist()}")
    return True, ["free=%d" % len(free), "offsets=%d" % max(k for _, k in free)]


@st.composite
def r_reach(draw):
    room = draw(st.integers(2, 60) | st.integers(13, 400))
    lead, tail = draw(st.sampled_from((([], []), ([2], []), ([], [3])))) if room < 100 else ([], [])
    return {"lead": lead, "tail": tail, "room": room, "size": draw(st.sampled_from((1, 2, 5, 30))), "seed": draw(st.integers(0, 2 ** 40))}


def run_reach(c):
    """every offset, the last one too, comes up: with 40 draws per offset one is missed with a probability below 1e-14"""
    n = c["room"] + c["size"] - 1
    shape = tuple(c["lead"] + [n] + c["tail"])
    ax = len(c["lead"])
    x = torch.arange(int(np.prod(shape))).reshape(shape)
    g = torch.Generator().manual_seed(c["seed"])
    seen = np.zeros(n, int)
    row = int(np.prod(shape[ax + 1:], dtype=int))
    for _ in range(40 * c["room"]):
        y = call(random_crop, x, ax, c["size"], generator=g)
        if y.shape[ax] != c["size"]:
            raise Violation(f"random_crop of {c['size']} from {shape}: shape {tuple(y.shape)}")
        seen[int(y.reshape(-1)[0]) // row % n] += 1
    if np.any(seen[c["room"]:]) or not np.all(seen[:c["room"]]):
        raise Violation(f"random_crop of {c['size']} from axis {ax} of {shape}: of the offsets 0..{c['room'] - 1} in {40 * c['room']} draws, never {np.flatnonzero(seen[:c['room']] == 0).tolist()}")
    return True, ["room=" + ("<13" if c["room"] < 13 else "13-99" if c["room"] < 100 else "100+")]


TESTS = [Test("reach", run_reach, strategy=r_reach(), quick=60), Test("window", run_window, strategy=r_window(), quick=10000),
         Test("offsets", run_offsets, strategy=r_offsets(), quick=1200)]
