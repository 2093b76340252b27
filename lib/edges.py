"""Edge-filter specifications: JSON spec -> filter and reference component."""
import numpy as np
from hypothesis import strategies as st
from torchimage.filtering import EdgeFilter, Farid, GaussianGrad, Prewitt, Scharr, Sobel

from . import gen, padders, ref

FARID_S = [0.0376593171958126, 0.249153396177344, 0.426374573253687, 0.249153396177344, 0.0376593171958126]
FARID_E = [-0.109603762960254, -0.276690988455557, 0, 0.276690988455557, 0.109603762960254]
FIXED = {"Sobel": ([-1, 0, 1], [1, 2, 1]), "Prewitt": ([-1, 0, 1], [1, 1, 1]), "Scharr": ([-1, 0, 1], [3, 10, 3]),
         "Farid": (FARID_E, FARID_S)}
CLS = {"Sobel": Sobel, "Prewitt": Prewitt, "Scharr": Scharr, "Farid": Farid}
SHORT = ([-1, 0, 1], [1, -2, 1], [-1.0, 0.0, 1.0], [-1.5, 0.5, 1.25], [-0.5, 0, 0.5], [1, -2, 1.5], [-1, 0.25, 1], [1, 0, -1],
         [-1.75, 0.5, 1.75], [1, -2.5, 1], [0, 1], [-1, 1], [-1, 0, 0, 1], [2, -4, 2])


@st.composite
def filters(draw, padder=True, n_smooth=None, kinds=("Sobel", "Prewitt", "Scharr", "Farid", "gauss", "custom", "custom")):
    """n_smooth: number of smooth axes when per-axis smooth kernels are allowed."""
    kind = draw(st.sampled_from(tuple(kinds)))
    sp = {"kind": kind}
    pad = draw(padders.padders(1, gen.SAME_MODES, lists=False)) if padder else None
    if kind in FIXED:
        sp["normalize"] = draw(st.booleans())
        sp["dflt"] = draw(st.integers(0, 3)) == 0  # rely on the default reflect border
    elif kind == "gauss":
        many = n_smooth and n_smooth > 1 and draw(st.integers(0, 3)) == 0
        lst = lambda item: draw(st.lists(item, min_size=n_smooth, max_size=n_smooth))
        K, S = st.integers(1, 9), st.sampled_from([0.5, 0.8, 1, 1.5, 2.25])
        sp["k"] = lst(K) if many else draw(K)
        sp["sigma"] = lst(S) if many and draw(st.booleans()) else draw(S)
        if many or draw(st.integers(0, 2)) == 0:
            sp["ek"], sp["es"] = draw(K), draw(S)
        sp["normalize"] = draw(st.booleans())
        sp["order"] = draw(st.sampled_from([1, 1, 2, 3, 0]))
        sp["dflt"] = draw(st.integers(0, 3)) == 0
    else:
        sp["edge"] = draw(st.one_of(st.sampled_from(SHORT), gen.kernels(1, 7, exact=False)))
        sp["normalize"] = draw(st.booleans())
        # normalized kernels: nonnegative, or with weights of both signs and a sum well away from zero
        both = sp["normalize"] and draw(st.integers(0, 2)) == 0
        far = lambda k: abs(sum(k)) >= 0.25 * sum(map(abs, k)) > 0
        one = lambda: draw(gen.kernels(1, 6, positive=sp["normalize"] and not both, exact=False).map(lambda k: k if not both or far(k) else [-abs(v) - 1 for v in k]))
        many = n_smooth and n_smooth > 1 and draw(st.integers(0, 3)) == 0
        sp["smooth"] = [one() for _ in range(n_smooth)] if many else (one() if sp["normalize"] or draw(st.integers(0, 5)) else [])
        sp["form"] = draw(st.sampled_from(("list", "tuple", "np", "torch")))
        sp["dflt"] = False
    sp["omit"] = draw(st.booleans())  # leave options at their documented defaults
    sp["pad"] = {"form": "str", "mode": "reflect"} if sp["dflt"] else pad
    return sp


def build(sp, padder=0):
    """padder: override the padder object (to share one)."""
    kw = {} if sp["dflt"] else {"same_padder": padders.build(sp["pad"]) if padder == 0 else padder}
    kind = sp["kind"]
    if kind in FIXED:
        if sp["normalize"] or not sp.get("omit"):
            kw["normalize"] = sp["normalize"]
        return CLS[kind](**kw)
    if kind == "gauss":
        if "ek" in sp:
            kw.update(edge_kernel_size=sp["ek"], edge_sigma=sp["es"])
        if sp["order"] != 1 or not sp.get("omit", True):
            kw["edge_order"] = sp["order"]
        if not sp["normalize"] or not sp.get("omit", True):
            kw["normalize"] = sp["normalize"]
        return GaussianGrad(sp["k"], sp["sigma"], **kw)
    form = sp["form"]
    if sp["normalize"] or not sp.get("omit"):
        kw["normalize"] = sp["normalize"]
    return EdgeFilter(gen.container(sp["edge"], form), gen.kernel_arg(sp["smooth"], form), **kw)


def edge_kernel(sp):
    if sp["kind"] in FIXED:
        return list(FIXED[sp["kind"]][0])
    if sp["kind"] == "gauss":
        return list(ref.gauss_kernel(sp.get("ek", sp["k"]), sp.get("es", sp["sigma"]), sp["order"]))
    return list(sp["edge"])


def smooth_kernels(sp, m):
    if sp["kind"] in FIXED:
        ks = [list(FIXED[sp["kind"]][1])] * m
    elif sp["kind"] == "gauss":
        at = lambda v, i: v[i] if isinstance(v, list) else v
        ks = [list(ref.gauss_kernel(at(sp["k"], i), at(sp["sigma"], i), 0)) for i in range(m)]
    else:
        s = sp["smooth"]
        ks = s if s and isinstance(s[0], list) else [s] * m
    if sp["normalize"]:
        ks = [[v / sum(k) for v in k] for k in ks]
    return ks


def component(a, sp, edge_axis, smooth_axes):
    """(reference component, magnitude scale)"""
    smooth_axes = [ax for ax in smooth_axes if ax != edge_axis]
    e, s1 = padders.filt(a, [edge_axis], [edge_kernel(sp)], sp["pad"])
    if not smooth_axes:
        return e, s1
    ks = smooth_kernels(sp, len(smooth_axes))
    y, s2 = padders.filt(e, smooth_axes, ks, sp["pad"])
    big = 1.0
    for k in ks:
        big *= max(1.0, float(np.sum(np.abs(k)))) if len(k) else 1.0
    return y, max(s2, s1 * big)


def terms(a, sp, edge_axis, smooth_axes):
    """what a direct summation of the component rounds relative to, or None"""
    if sp["kind"] == "gauss":
        return None
    smooth_axes = [ax for ax in smooth_axes if ax != edge_axis]
    e = padders.bound(a, [edge_axis], [edge_kernel(sp)], sp["pad"])
    if e is None or not smooth_axes:
        return e
    return padders.bound(e, smooth_axes, smooth_kernels(sp, len(smooth_axes)), sp["pad"])


def per_axis(sp):
    """Does the filter have one smooth kernel per smooth axis?"""
    return (sp["kind"] == "custom" and bool(sp["smooth"]) and isinstance(sp["smooth"][0], list)) or (
        sp["kind"] == "gauss" and (isinstance(sp["k"], list) or isinstance(sp["sigma"], list)))
