"""Same-padder specifications: JSON spec -> the argument to pass and the reference parameters."""
from hypothesis import strategies as st
from torchimage.padding import Padder

from . import gen, ref


@st.composite
def pair_param(draw, m, item, lists=True):
    k = draw(st.sampled_from(("scalar", "pair", "list") if lists else ("scalar", "pair")))
    if k == "scalar":
        v = draw(item)
        return {"pass": v, "each": [[v, v]] * m, "k": k}
    if k == "pair":
        v = [draw(item), draw(item)]
        return {"pass": v, "each": [v] * m, "k": k}
    v = [[draw(item), draw(item)] for _ in range(m)]
    return {"pass": v, "each": v, "k": k}


def pair_arg(p):
    v = p["pass"]
    if p["k"] == "pair":
        return tuple(v)
    if p["k"] == "list":
        return [tuple(q) for q in v]
    return v


@st.composite
def padders(draw, m, modes=gen.SAME_MODES, none=False, forms=("str", "padder", "padder"), lists=True):
    """A padder for m listed axes; None when none=True allows it."""
    if none and draw(st.integers(0, 3)) == 0:
        return None
    form = draw(st.sampled_from(tuple(forms)))
    mode = draw(st.sampled_from(tuple(modes)))
    sp = {"form": form, "mode": mode, "m": m}
    if form == "padder":
        if lists and m > 1 and draw(st.integers(0, 3)) == 0:
            sp["mode"] = [draw(st.sampled_from(tuple(modes))) for _ in range(m)]
        # any earlier width, in any form that fits m axes
        sp["w"] = draw(st.one_of(st.none(), st.integers(0, 5), pair_param(m, st.integers(0, 4), lists)))
        if draw(st.booleans()):
            sp["cv"] = draw(pair_param(m, gen.NUM, lists))
            sp["ev"] = draw(pair_param(m, gen.NUM, lists))
            sp["sl"] = draw(pair_param(m, st.one_of(st.none(), st.integers(1, 9)), lists))
    return sp


def build(sp):
    """What to pass as same_padder."""
    if sp is None or sp["form"] == "str":
        return None if sp is None else sp["mode"]
    kw = {"mode": sp["mode"]}
    w = sp.get("w")
    if w is not None:
        kw["pad_width"] = pair_arg(w) if isinstance(w, dict) else w
    if "cv" in sp:
        kw.update(constant_values=pair_arg(sp["cv"]), end_values=pair_arg(sp["ev"]), stat_length=pair_arg(sp["sl"]))
    return Padder(**kw)


def modes(sp, m):
    return sp["mode"] if isinstance(sp["mode"], list) else [sp["mode"]] * m


def label(sp):
    if sp is None:
        return "pad=none"
    return "pad=" + (sp["mode"] if isinstance(sp["mode"], str) else "mixed")


def params(sp, m):
    """(modes, cvs, evs, sls) for the reference."""
    if "cv" in sp:
        each = lambda p: p["each"] if p["k"] == "list" else [p["each"][0]] * m
        return modes(sp, m), each(sp["cv"]), each(sp["ev"]), each(sp["sl"])
    return modes(sp, m), [(0, 0)] * m, [(0.0, 0.0)] * m, [(None, None)] * m


def pad_same(a, axes, kernel_sizes, strides, sp):
    """Reference same padding of `a` (float64)."""
    import numpy as np
    a = np.asarray(a, dtype=np.float64)
    if sp is None:
        return a
    md, cv, ev, sl = params(sp, len(axes))
    return ref.same_pad(a, axes, kernel_sizes, strides, md, cv, ev, sl)[0]


def filt(a, axes, kernels, sp, strides=None):
    """Reference same-padded separable pooling; sp None = valid."""
    import numpy as np
    strides = strides or [1] * len(axes)
    p = pad_same(a, axes, [len(k) for k in kernels], strides, sp)
    big = float(np.max(np.abs(p))) if p.size else 0.0
    for ax, k, s in zip(axes, kernels, strides):
        if len(k):
            p = ref.corr_1d(p, ax, k, s)
            big *= max(1e-30, float(np.sum(np.abs(k))))
    return np.asarray(p, dtype=np.float64), big


EVEN = {"zeros": "zeros", "replicate": "replicate", "circular": "circular", "periodize": "periodize", "symmetric": "symmetric", "reflect": "reflect", "antisymmetric": "symmetric"}


def bound(a, axes, kernels, sp, strides=None):
    """The sum of the absolute terms of every element of filt(...): what a direct summation rounds relative to.  None if the border
    rule is not a copy of samples."""
    import numpy as np
    ms = modes(sp, len(axes)) if sp is not None else [None] * len(axes)
    if any(m is not None and m not in EVEN for m in ms):
        return None
    v = np.abs(np.asarray(a, dtype=np.float64))
    for ax, k, s, m in zip(axes, kernels, strides or [1] * len(axes), ms):
        if len(k):
            v = filt(v, [ax], [[abs(float(q)) for q in k]], None if m is None else {"form": "str", "mode": EVEN[m]}, [s])[0]
    return v
