"""P14 gradient magnitude, Laplace, LoG"""
import numpy as np
from hypothesis import strategies as st
from torchimage.filtering import Laplace, LaplacianOfGaussian

from lib import cmp, edges, gen, padders, ref
from lib.core import Test, Violation, call, rejects

ID = "P14"
RULE = ("one case = magnitude / Laplace / LoG over some axes; non-trivial = the input varies and at least two of the per-axis "
        "components are nonzero (constant-image cases: the constant is nonzero)")
ASSUMPTIONS = ["p in 1 .. 6, epsilon >= 0; for odd p >= 3 only elements with a safely positive sum are compared", "distinct axes"]


@st.composite
def mag(draw, big=False):
    shape = draw(gen.huge_shapes(2, 3, 2, 20000)) if big == "huge" else draw(gen.shapes(2, 3, 2, 20, 900)) if big else draw(gen.shapes(2, 4, 1, 7, 300))
    axes = draw(gen.axes_of(len(shape), 2))
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "unit"))), "axes": axes,
            "f": draw(edges.filters(n_smooth=len(axes) - 1)), "p": draw(st.sampled_from([None, 1, 2, 4, 6, 3, 3, 5])),
            "eps": draw(st.sampled_from([None, 0.0, 0.0, 1e-3, 0.25, 3])), "form": draw(gen.AXFORM), "none": draw(st.booleans())}


def run_mag(c):
    x, a = gen.make(c["x"])
    nd = a.ndim
    f = call(edges.build, c["f"])
    axes, arg = gen.norm_axes(c["axes"], nd), gen.axes_arg(c["axes"], c["form"])
    if c["none"] and not edges.per_axis(c["f"]):
        axes, arg = list(range(nd)), None
    kw = {}
    if c["p"] is not None:
        kw["p"] = c["p"]
    if c["eps"] is not None:
        kw["epsilon"] = c["eps"]
    y = call(f.magnitude, x, axes=arg, **kw)
    p, eps = c["p"] or 2, c["eps"] or 0.0
    comps, bigs = zip(*[edges.component(a, c["f"], e, axes) for e in axes])
    tot = sum(v ** p for v in comps) + eps
    what = f"{c['f']['kind']}.magnitude(axes={arg}, p={p}, epsilon={eps})"
    big = max(bigs) * len(axes)
    if float(big) ** p > (1e30 if c["x"]["dtype"] == "f32" else 1e280):
        return False, ["power overflows"]
    if p % 2 == 0 or p == 1:
        want = tot if p == 1 else tot ** (1.0 / p)
        terms = [edges.terms(a, c["f"], e, axes) for e in axes]
        if any(t is None for t in terms):
            cmp.close(y, want, what, dtype=x.dtype, scale=max(big, eps, 1e-30), ulp=1024)
        else:  # the root of a sum of p-th powers is a norm: it moves by at most the sum of the moves of its components
            under = 2 * (len(axes) * cmp.TINY[x.dtype]) ** (1.0 / p)
            cmp.close(y, want, what, dtype=x.dtype, scale=sum(terms) + (eps if p == 1 else 0), ulp=1024, elementwise=True, atol=under)
    else:  # a signed sum: its root is defined, and stable, where the sum is well above the rounding errors
        u = 256 * cmp.EPS[x.dtype]
        dtot = sum(p * np.abs(v) ** (p - 1) for v in comps) * u * big + u * (sum(np.abs(v) ** p for v in comps) + eps) + (u * big) ** p
        ok = tot > 100 * dtot
        cmp.shape_is(y, a.shape, what)
        cmp.same_dtype(y, x.dtype, what)
        pos = np.where(ok, tot, 1.0)
        want = pos ** (1.0 / p)
        bad = ok & ~(np.abs(y.detach().numpy() - want) <= dtot / pos * want + u * want)
        if np.any(bad):
            i = tuple(int(q) for q in np.argwhere(bad)[0])
            raise Violation(f"{what}: at {i}: got {y[i].item()!r}, expected {want[i]!r}")
    bad = int(c["axes"][0])
    rejects(f.magnitude, x, axes=[bad], exc=ValueError, what="magnitude over one axis")
    rejects(f.all_components, x, axes=bad, exc=ValueError, what="all_components over one axis")
    nz = sum(bool(np.any(np.abs(v) > 1e-9)) for v in comps)
    return nz >= 2 and len(np.unique(a)) > 1, [c["f"]["kind"], "p=%d" % p, "eps" if eps else "eps=0", "axes=%d" % len(axes)]


@st.composite
def lap(draw):
    shape = draw(gen.shapes(2, 4, 1, 8, 400))
    axes = draw(gen.axes_of(len(shape), 2))
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "unit"))), "axes": axes, "form": draw(gen.AXFORM),
            "pad": draw(padders.padders(1, gen.SAME_MODES, lists=False)), "dflt": draw(st.integers(0, 3)) == 0,
            "log": draw(st.booleans()), "k": draw(st.integers(1, 9)), "s": draw(st.sampled_from([0.3, 0.5, 1, 1.4, 2.5, 4])),
            "none": draw(st.booleans())}


def run_lap(c):
    x, a = gen.make(c["x"])
    nd = a.ndim
    kw = {} if c["dflt"] else {"same_padder": padders.build(c["pad"])}
    pad = {"form": "str", "mode": "reflect"} if c["dflt"] else c["pad"]
    axes, arg = gen.norm_axes(c["axes"], nd), gen.axes_arg(c["axes"], c["form"])
    if c["none"]:
        axes, arg = list(range(nd)), None
    want, big, nz, terms = 0.0, 0.0, 0, 0.0
    k2 = np.abs(ref.gauss_kernel(c["k"], c["s"], 2)) + np.abs(ref.gauss_kernel(c["k"], c["s"], 0)) / c["s"] ** 2  # (x^2/s^4 - 1/s^2) phi
    for e in axes:
        parts = padders.bound(a, [e], [list(k2) if c["log"] else [1, -2, 1]], pad)
        if c["log"]:
            v, s = padders.filt(a, [e], [list(ref.gauss_kernel(c["k"], c["s"], 2))], pad)
            rest = [q for q in axes if q != e]
            v, s2 = padders.filt(v, rest, [list(ref.gauss_kernel(c["k"], c["s"], 0))] * len(rest), pad)
            s = max(s, s2)
            parts = None if parts is None else padders.bound(parts, rest, [list(ref.gauss_kernel(c["k"], c["s"], 0))] * len(rest), pad)
        else:
            v, s = padders.filt(a, [e], [[1, -2, 1]], pad)
        terms = None if parts is None or terms is None else terms + parts
        want, big = want + v, big + s
        nz += bool(np.any(np.abs(v) > 1e-9))
    if c["log"]:
        f = call(LaplacianOfGaussian, c["k"], c["s"], **kw)
        y = call(f.forward, x) if arg is None else call(f.forward, x, axes=arg)
    else:
        y = call(call(Laplace, **kw).forward, x, axes=arg)
    cmp.near_terms(y, want, terms, big, f"{'LoG' if c['log'] else 'Laplace'} axes={arg} k={c['k']} sigma={c['s']} {padders.label(pad)}", x.dtype, 1024)
    return nz >= 2 and len(np.unique(a)) > 1, ["log" if c["log"] else "laplace", padders.label(pad), "axes=%d" % len(axes)]


@st.composite
def const(draw):
    shape = draw(gen.shapes(2, 4, 1, 9, 300))
    f = draw(edges.filters(n_smooth=None, kinds=("Sobel", "Prewitt", "Scharr", "Farid")))
    f["pad"] = {"form": "str", "mode": draw(st.sampled_from(gen.REPLICATING + ("maximum", "minimum", "mean", "median")))}
    f["dflt"] = False
    return {"shape": shape, "axes": draw(gen.axes_of(len(shape), 2)), "v": draw(st.sampled_from([1, -3, 0.5, 7.25, 100.0])), "f": f,
            "lap": draw(st.booleans()), "dt": draw(st.sampled_from(("f64", "f32")))}


def run_const(c):
    import torch
    x = torch.full(c["shape"], float(c["v"]), dtype=gen.td(c["dt"]))
    f = Laplace(same_padder=c["f"]["pad"]["mode"]) if c["lap"] else call(edges.build, c["f"])
    y = call(f.forward if c["lap"] else f.magnitude, x, axes=c["axes"])
    tol = 1e-9 if c["dt"] == "f64" else 1e-3
    cmp.close(y, np.zeros(c["shape"]), f"{'Laplace' if c['lap'] else c['f']['kind']} of a constant image", atol=tol * abs(c["v"]) * 0.1)
    return True, ["laplace" if c["lap"] else c["f"]["kind"], c["f"]["pad"]["mode"]]


TESTS = [
    Test("magnitude", run_mag, strategy=mag(), quick=5000),
    Test("laplace", run_lap, strategy=lap(), quick=5000),
    Test("constant", run_const, strategy=const(), quick=1500),
    Test("large", run_mag, strategy=mag(big=True), quick=500), Test("huge", run_mag, strategy=mag(big="huge"), quick=100),
]
