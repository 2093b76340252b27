"""Pooling-module specifications: JSON spec -> module and per-axis reference kernels."""
import numpy as np
from hypothesis import strategies as st
from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd

from . import gen, ref


@st.composite
def pools(draw, m, kmax=7, kinds=("sep", "avg", "gauss"), empty=True, orders=True, kmin=1, weights="any", scalar=True):
    """Parameters of a pooling module for m listed axes (no stride, no padder)."""
    kind = draw(st.sampled_from(tuple(kinds)))
    single = scalar and draw(st.booleans())
    ints = st.integers(kmin, kmax)
    sp = {"kind": kind, "m": m}
    if kind == "sep":
        kern = lambda: draw(gen.kernels(kmin, kmax, positive=weights == "positive") if draw(st.integers(0, 2)) else gen.kernels(kmin, kmax, positive=weights == "positive", exact=False))
        if single:
            sp["kernel"] = kern()
        else:
            sp["kernel"] = [kern() if not empty or draw(st.integers(0, 9)) else [] for _ in range(m)]
            if not any(sp["kernel"]):
                sp["kernel"][0] = [1.0] * max(1, kmin)
        if weights == "positive":
            norm = lambda k: [v / sum(k) for v in k] if k else k
            sp["kernel"] = norm(sp["kernel"]) if single else [norm(k) for k in sp["kernel"]]
        sp["form"] = draw(st.sampled_from(("list", "tuple", "np", "torch")))
    elif kind == "avg":
        sp["k"] = draw(ints) if single else draw(st.lists(ints, min_size=m, max_size=m))
    else:
        per = lambda item: draw(item) if single or draw(st.booleans()) else draw(st.lists(item, min_size=m, max_size=m))
        sp["k"] = per(ints)
        sp["sigma"] = per(st.sampled_from([0.5, 1.0, 1.5, 0.8, 2.25, 3]))
        sp["order"] = per(st.sampled_from([0, 0, 0, 1, 2, 3])) if orders else 0
    return sp


def _at(v, i):
    return v[i] if isinstance(v, list) else v


def kernels_of(sp, m=None):
    """The kernel of every listed axis."""
    m = sp["m"] if m is None else m
    if sp["kind"] == "sep":
        k = sp["kernel"]
        return k if k and isinstance(k[0], list) else [k] * m
    if sp["kind"] == "avg":
        return [[1.0 / _at(sp["k"], i)] * _at(sp["k"], i) for i in range(m)]
    return [list(ref.gauss_kernel(_at(sp["k"], i), _at(sp["sigma"], i), _at(sp["order"], i))) for i in range(m)]


def build(sp, stride=None, padder=None, **kw):
    if sp["kind"] == "sep":
        return SeparablePoolNd(gen.kernel_arg(sp["kernel"], sp["form"]), stride, same_padder=padder)
    if sp["kind"] == "avg":
        return AvgPoolNd(sp["k"], stride, same_padder=padder, **kw)
    return GaussianPoolNd(sp["k"], sp["sigma"], sp["order"], stride, same_padder=padder)
