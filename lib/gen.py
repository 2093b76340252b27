"""Generators: Hypothesis strategies for JSON cases, and the values they denote."""
import numpy as np
import torch
from hypothesis import strategies as st

DT = {"f64": (torch.float64, np.float64), "f32": (torch.float32, np.float32), "f16": (torch.float16, np.float16),
      "i64": (torch.int64, np.int64), "i32": (torch.int32, np.int32), "i16": (torch.int16, np.int16),
      "u8": (torch.uint8, np.uint8), "bool": (torch.bool, np.bool_)}
FLOATS = ("f64", "f32", "f16")
SEEDS = st.integers(0, 2 ** 20)


def td(dtype):
    return DT[dtype][0]


def nd(dtype):
    return DT[dtype][1]


def values(shape, dtype, fill):
    """The numpy array a fill recipe denotes."""
    shape = tuple(shape)
    n = int(np.prod(shape, dtype=int))
    k, s = fill["k"], fill.get("s", 0)
    rng = np.random.Generator(np.random.PCG64(s))
    if k == "seq":  # distinct values
        a = np.arange(1, n + 1, dtype=np.float64)
        if s:
            a = rng.permutation(a)
    elif k == "int":
        a = rng.integers(-9, 10, size=n).astype(np.float64)
        if dtype == "u8":
            a = np.abs(a)
    elif k == "normal":
        a = rng.standard_normal(n)
    elif k == "unit":
        a = rng.random(n)
    elif k == "big":
        a = rng.standard_normal(n) * 1e3 + 1e4
    elif k == "tiny":
        a = rng.standard_normal(n) * 1e-6
    elif k == "const":
        a = np.full(n, float(rng.integers(-9, 10)))
    elif k == "basis":
        a = np.zeros(n)
        if n:
            a[s % n] = 1.0
    elif k == "special":  # copies must carry these through
        a = rng.integers(-9, 10, size=n).astype(np.float64)
        sp = np.array([np.nan, np.inf, -np.inf, 0.0, 1.0, 2.0])
        a = np.where(rng.random(n) < 0.4, sp[rng.integers(0, 6, size=n)], a)
    elif k == "full":  # full range of an integer type
        info = np.iinfo(nd(dtype))
        a = rng.integers(info.min, info.max, size=n, endpoint=True, dtype=nd(dtype))
        if n:
            a[s % n] = info.max
        return a.reshape(shape)
    elif k == "wide":  # integers that float64 (or float32) arithmetic would round
        a = rng.integers(-2 ** 55, 2 ** 55, size=n) if dtype == "i64" else rng.integers(-2 ** 25, 2 ** 25, size=n)
    elif k == "bool":
        a = rng.integers(0, 2, size=n)
    elif k == "near":  # almost constant
        a = float(rng.integers(-9, 10)) + rng.standard_normal(n) * 10.0 ** -int(rng.integers(3, 10))
    elif k == "faint":
        a = rng.standard_normal(n) * 10.0 ** -int(rng.integers(3, 11))
    elif k == "sparse":
        a = np.where(rng.random(n) < 0.1, rng.integers(-9, 10, size=n), 0).astype(np.float64)
    elif k == "spike":  # constant but for one element
        a = np.full(n, float(rng.integers(-3, 4)))
        if n:
            a[int(rng.integers(0, n))] += float(rng.choice([1e-6, 1e-3, 1.0, -50.0]))
    elif k == "dots":  # a few elements of very different magnitude on black
        a = np.where(rng.random(n) < 0.15, rng.choice([-1.0, 1.0], size=n) * 10.0 ** rng.uniform(-5, 5, size=n), 0.0)
        if n:
            a[s % n] = 1.0
    elif k == "binary":
        a = rng.integers(0, 2, size=n).astype(np.float64)
    elif k == "palindrome":
        a = rng.standard_normal(n)
        a = a + a[::-1]
    elif k == "rows":  # constant along all axes but one
        ax = int(rng.integers(0, max(1, len(shape))))
        a = np.zeros(shape)
        if a.ndim:
            a = a + rng.standard_normal(shape[ax]).reshape([-1 if i == ax else 1 for i in range(a.ndim)])
        a = a.ravel()
    elif k == "ramp":
        a = np.zeros(shape)
        for i, m in enumerate(shape):
            a = a + (float(rng.integers(-3, 4)) * np.arange(m)).reshape([-1 if i == q else 1 for q in range(a.ndim)])
        a = a.ravel()
    else:
        raise ValueError(k)
    return a.astype(nd(dtype)).reshape(shape)


def tensor_of(a, layout="c", grad=False):
    """A torch tensor with the values of `a` in the given memory layout.

    c: contiguous; perm:<seed>: axes stored in another order; step:<seed>: every second element of
    a larger tensor; offset:<seed>: a window of a larger tensor; expand:<axis>: stride 0 along
    that axis (a must be constant along it)."""
    a = np.asarray(a)
    t = torch.from_numpy(np.ascontiguousarray(a).reshape(a.shape).copy())
    kind, _, arg = layout.partition(":")
    if kind != "c" and t.ndim > 0:
        rng = np.random.Generator(np.random.PCG64(int(arg)))
        if kind == "perm":
            p = [int(i) for i in rng.permutation(t.ndim)]
            inv = list(np.argsort(p))
            t = t.permute(p).contiguous().permute([int(i) for i in inv])
        elif kind == "step":
            steps = [int(i) for i in rng.integers(1, 4, size=t.ndim)]
            big = torch.zeros([n * s for n, s in zip(t.shape, steps)], dtype=t.dtype)
            if big.dtype.is_floating_point:
                big.fill_(float("nan"))
            view = big[tuple(slice(None, None, s) for s in steps)]
            view.copy_(t)
            t = view
        elif kind == "offset":
            off = [int(i) for i in rng.integers(0, 3, size=t.ndim)]
            big = torch.zeros([n + o + 1 for n, o in zip(t.shape, off)], dtype=t.dtype)
            if big.dtype.is_floating_point:
                big.fill_(float("nan"))
            view = big[tuple(slice(o, o + n) for o, n in zip(off, t.shape))]
            view.copy_(t)
            t = view
        elif kind == "expand":
            ax = int(arg)
            t = t.narrow(ax, 0, 1).clone().expand(*t.shape)
        else:
            raise ValueError(layout)
    if grad and t.dtype.is_floating_point:
        t = t.detach().requires_grad_(True)
    return t


def make(spec):
    """-> (tensor, numpy array with the same values and dtype)"""
    a = values(spec["shape"], spec["dtype"], spec["fill"])
    kind, _, arg = spec.get("layout", "c").partition(":")
    if kind == "expand" and a.size == 0:
        return tensor_of(a, "c", spec.get("grad", False)), a
    if kind == "expand" and a.ndim:
        ax = int(arg)
        a = np.broadcast_to(np.take(a, [0], axis=ax), a.shape).copy()
    return tensor_of(a, spec.get("layout", "c"), spec.get("grad", False)), a


@st.composite
def layouts(draw, ndim, expand=True):
    k = draw(st.sampled_from(("c", "c", "perm", "step", "offset") + (("expand",) if expand and ndim else ())))
    if k == "c" or ndim == 0:
        return "c"
    if k == "expand":
        return "expand:%d" % draw(st.integers(0, ndim - 1))
    return k + ":%d" % draw(st.integers(0, 30))


def fills(kinds):
    return st.fixed_dictionaries({"k": st.sampled_from(tuple(kinds)), "s": SEEDS})


# values a shortcut might take for a simpler case
STRUCTURED = ("near", "faint", "sparse", "spike", "dots", "binary", "palindrome", "rows", "ramp", "const")


@st.composite
def tensors(draw, shape, dtypes=("f64", "f32"), kinds=("normal", "int", "seq"), layout=True, grad=True, int_kinds=("int",)):
    """Spec for a tensor of a given shape."""
    dt = draw(st.sampled_from(tuple(dtypes)))
    if dt in ("f64", "f32") and "normal" in kinds and draw(st.integers(0, 9)) == 9:
        kinds = STRUCTURED
    fl = draw(fills(kinds if dt in FLOATS else (("bool",) if dt == "bool" else int_kinds)))
    sp = {"shape": list(shape), "dtype": dt, "fill": fl}
    if layout:
        sp["layout"] = draw(layouts(len(shape)))
    if grad and dt in FLOATS and draw(st.integers(0, 5)) == 0:
        sp["grad"] = True
    return sp


@st.composite
def shapes(draw, min_ndim=1, max_ndim=4, min_side=1, max_side=7, max_numel=600):
    n = draw(st.integers(min_ndim, max_ndim))
    out = []
    numel = 1
    for _ in range(n):
        hi = max(min_side, min(max_side, max_numel // numel))
        s = draw(st.integers(min_side, hi))
        out.append(s)
        numel *= max(s, 1)
    return out


@st.composite
def huge_shapes(draw, min_ndim=1, max_ndim=3, min_side=1, max_numel=60000):
    """Shapes with sides of every order of magnitude."""
    n = draw(st.integers(min_ndim, max_ndim))
    out, left = [], max_numel
    for i in range(n):
        top = max(min_side, left // min_side ** (n - i - 1))
        s = max(min_side, min(top, draw(st.sampled_from((1, 2, 5, 16, 40, 100, 260, 700, 2100, 5000, 12000)))
                                   + draw(st.integers(-1, 1) | st.integers(0, 300))))
        out.append(s)
        left = max(1, left // s)
    return draw(st.permutations(out))


@st.composite
def axes_of(draw, ndim, min_size=1, max_size=None, unique=True):
    """A list of distinct axes in random order with random signs."""
    m = ndim if max_size is None else min(ndim, max_size)
    k = draw(st.integers(min(min_size, m), m))
    perm = draw(st.permutations(list(range(ndim))))
    return [a - ndim if draw(st.booleans()) else a for a in perm[:k]]


def norm_axes(axes, ndim):
    return [a % ndim for a in axes]


def axes_arg(axes, form):
    """The same axes in the notation `form` (list, tuple, np, int for single)."""
    if form == "tuple":
        return tuple(axes)
    if form == "np":
        return np.array(axes, dtype=int)
    if form == "int" and len(axes) == 1:
        return axes[0]
    return list(axes)


AXFORM = st.sampled_from(("list", "tuple", "np", "int"))

VALUE_MODES = ("zeros", "constant", "replicate", "smooth", "circular", "periodize", "symmetric", "reflect",
               "antisymmetric", "odd_reflect", "odd_symmetric", "linear_ramp", "maximum", "mean", "minimum", "median")
EXT_MODES = ("zeros", "replicate", "smooth", "circular", "periodize", "symmetric", "reflect", "antisymmetric",
             "odd_reflect", "odd_symmetric")
# modes that can serve as same padding with the ordinary output size
SAME_MODES = tuple(m for m in VALUE_MODES if m != "periodize")
# borders made only of the signal's own values
REPLICATING = ("replicate", "circular", "symmetric", "reflect")
LINEAR_MODES = ("zeros", "replicate", "smooth", "circular", "periodize", "symmetric", "reflect", "antisymmetric",
                "odd_reflect", "odd_symmetric", "mean")

NUM = st.one_of(st.integers(-5, 5), st.sampled_from([0.5, -1.25, 2.75, 100.0, -0.001]))

# ---------------------------------------------------------------- kernels
WEIGHT = st.one_of(st.integers(-4, 5), st.sampled_from([0.5, -0.25, 1.75, -2.5, 0.109375, 3.25, 2.0 ** -10]))


# weights without a short binary expansion
ROUGH = st.one_of(WEIGHT, st.sampled_from([0.1, 0.3, -0.7, 1.0 / 3, 1e-3, -2.2]), st.floats(-3, 3).filter(lambda v: v == 0 or abs(v) > 1e-9))


@st.composite
def structured_kernel(draw, k, positive):
    """Kernels with a pattern, or one weight away from a pattern by little or much."""
    v = draw(st.sampled_from([1.0, 0.5, 2.0, 0.25, 3.0]))
    what = draw(st.sampled_from(("same", "even", "wide") if positive else ("same", "even", "wide", "odd", "delta", "sobel", "laplace", "zerosum", "twins")))
    half = draw(st.lists(st.sampled_from([1, 2, 3, 0.5, 0.25] if positive else [1, 2, -1, 0.5, -2.5, 0, 3]), min_size=(k + 1) // 2, max_size=(k + 1) // 2))
    if what == "same":
        w = [v] * k
    elif what == "even":
        w = half + half[:k // 2][::-1]
    elif what == "wide":
        w = [10.0 ** -e * (1 if positive or i % 3 else -1) for i, e in enumerate(draw(st.lists(st.integers(0, 9), min_size=k, max_size=k)))]
    elif what == "odd":
        w = half + [-q for q in half[:k // 2][::-1]]
        if k % 2:
            w[k // 2] = 0.0
    elif what == "delta":
        w = [0.0] * k
        w[draw(st.integers(0, k - 1))] = v
    elif what == "sobel":
        w = ([-1.0, 0.0, 1.0] * k)[:k]
    elif what == "laplace":
        w = ([1.0, -2.0, 1.0] * k)[:k]
    elif what == "zerosum":
        w = half + half[:k // 2]
        w[-1] -= sum(w)
    else:
        w = [v, -v] * k
        w = w[:k]
    if draw(st.booleans()):
        i = draw(st.integers(0, k - 1))
        w[i] = w[i] + draw(st.sampled_from([2.0 ** -20, 2.0 ** -17, 2.0 ** -10, 0.125, 1.0]))
    return w


@st.composite
def kernels(draw, min_len=1, max_len=6, positive=False, exact=True):
    """A kernel as a list of numbers; asymmetric kernels are favoured. exact: dyadic weights only."""
    k = draw(st.integers(min_len, max(min_len, max_len)))
    if not exact and k > 1 and draw(st.integers(0, 3)) == 3:
        return draw(structured_kernel(k, positive))
    if not exact and not positive:
        return draw(st.lists(ROUGH, min_size=k, max_size=k))
    w = st.sampled_from([1, 2, 3, 0.5, 0.25, 1.75, 4, 0.125]) if positive else WEIGHT
    return draw(st.lists(w, min_size=k, max_size=k))


KFORM = st.sampled_from(("list", "tuple", "np", "torch", "npf32"))


def container(kernel, form):
    """A kernel in the given container."""
    if form == "tuple":
        return tuple(kernel)
    if form == "np":
        return np.array(kernel, dtype=np.float64)
    if form == "npf32":
        return np.array(kernel, dtype=np.float32)
    if form == "torch":
        return torch.tensor([float(k) for k in kernel], dtype=torch.float64)
    return list(kernel)


def denoted(kernel, form):
    """The weights a container really holds."""
    return [float(np.float32(k)) for k in kernel] if form == "npf32" else list(kernel)


def kernel_arg(ks, form, outer="list"):
    """ks: one kernel (list of numbers) or a list of kernels."""
    if ks and isinstance(ks[0], list):
        v = [container(k, form) for k in ks]
        return tuple(v) if outer == "tuple" else v
    return container(ks, form)


def norm_strides(stride, lens):
    """stride argument -> per axis stride (None = kernel length)"""
    per = stride if isinstance(stride, list) else [stride] * len(lens)
    return [max(k, 1) if s is None else s for s, k in zip(per, lens)]


@st.composite
def strides(draw, m, hi=5):
    item = st.one_of(st.none(), st.integers(1, 3), st.integers(1, hi))
    k = draw(st.sampled_from(("none", "scalar", "list", "list")))
    if k == "none":
        return None
    if k == "scalar":
        return draw(item)
    return draw(st.lists(item, min_size=m, max_size=m))
