"""P13 edge-filter components"""
import numpy as np
from hypothesis import strategies as st

from lib import cmp, edges, gen
from lib.core import Test, Violation, call

ID = "P13"
RULE = ("one case = one filter evaluated by component, horizontal, vertical or all_components; non-trivial = the input varies and "
        "the expected component is not identically zero")
ASSUMPTIONS = ["normalize=True is used with smooth kernels of nonzero sum", "distinct axes", "periodize excluded (it changes sizes)"]


def check(y, want, big, x, what, terms=None):
    cmp.near_terms(y, want, terms, big, what, x.dtype, 512)


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 2, 20000)) if big == "huge" else draw(gen.shapes(1, 2, 2, 30, 900)) if big else draw(gen.shapes(1, 4, 1, 7, 300))
    nd = len(shape)
    edge = draw(st.integers(0, nd - 1))
    others = [a for a in range(nd) if a != edge]
    smooth = list(draw(st.permutations(others)))[:draw(st.integers(0, len(others)))]
    f = draw(edges.filters(n_smooth=len(smooth)))
    listed = list(smooth)
    form = draw(st.sampled_from(("list", "tuple", "int", "none", "list+edge", "list+edge")))
    if form == "none" and smooth != others:
        form = "list"
    if form == "int" and len(smooth) != 1:
        form = "tuple"
    if form == "list+edge":
        listed.insert(draw(st.integers(0, len(listed))), edge)
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "unit"))), "f": f, "edge": edge, "smooth": smooth,
            "listed": listed, "form": form, "neg": draw(st.integers(0, 2 ** (nd + 1) - 1))}


def run_rand(c):
    x, a = gen.make(c["x"])
    nd = a.ndim
    sgn = lambda q: q - nd if c["neg"] >> q & 1 else q
    f = call(edges.build, c["f"])
    listed = [sgn(q) for q in c["listed"]]
    arg = {"none": None, "int": listed[0] if listed else 0, "tuple": tuple(listed)}.get(c["form"], listed)
    y = call(f.component, x, edge_axis=sgn(c["edge"]) if c["neg"] >> nd & 1 else c["edge"], smooth_axes=arg)
    want, big = edges.component(a, c["f"], c["edge"], c["smooth"])
    check(y, want, big, x, f"{c['f']['kind']}.component(edge_axis={c['edge']}, smooth_axes={arg})",
          edges.terms(a, c["f"], c["edge"], c["smooth"]))
    cmp.shape_is(y, a.shape, "component")
    return len(np.unique(a)) > 1 and bool(np.any(np.abs(want) > 1e-12)), [
        c["f"]["kind"], "smooth=%d" % len(c["smooth"]), "form=" + c["form"], "norm" if c["f"]["normalize"] else "raw"]


@st.composite
def hv(draw):
    shape = draw(gen.shapes(2, 4, 1, 7, 300))
    k = draw(st.integers(2, len(shape)))
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq"))), "f": draw(edges.filters(n_smooth=1)),
            "g": draw(edges.filters(n_smooth=k - 1)),
            "axes": draw(gen.axes_of(len(shape), k, k)), "form": draw(gen.AXFORM), "none": draw(st.booleans())}


def run_hv(c):
    x, a = gen.make(c["x"])
    nd = a.ndim
    f = call(edges.build, c["f"])
    for name, e, s in (("horizontal", nd - 2, nd - 1), ("vertical", nd - 1, nd - 2)):
        want, big = edges.component(a, c["f"], e, [s])
        check(call(getattr(f, name), x), want, big, x, f"{c['f']['kind']}.{name}", edges.terms(a, c["f"], e, [s]))
    g = call(edges.build, c["g"])
    axes = gen.norm_axes(c["axes"], nd)
    arg = gen.axes_arg(c["axes"], c["form"])
    if c["none"] and not edges.per_axis(c["g"]):
        axes, arg = list(range(nd)), None
    got = call(g.all_components, x, axes=arg) if arg is not None else call(g.all_components, x)
    if not isinstance(got, (list, tuple)) or len(got) != len(axes):
        raise Violation(f"all_components over {axes} returned {type(got).__name__} of {len(got)}")
    nz = False
    for y, e in zip(got, axes):
        want, big = edges.component(a, c["g"], e, axes)
        nz |= bool(np.any(np.abs(want) > 1e-12))
        check(y, want, big, x, f"{c['g']['kind']}.all_components(axes={arg}) for edge axis {e}")
    return len(np.unique(a)) > 1 and nz, [c["f"]["kind"], "all:" + c["g"]["kind"], "axes=%d" % len(axes)]


@st.composite
def short(draw):
    """every small edge kernel, including those near the fast-path ones"""
    return {"edge": draw(st.one_of(st.sampled_from(edges.SHORT), st.lists(st.sampled_from([-2, -1, -0.5, 0, 0.5, 1, 1.5, 2]), min_size=3, max_size=3))),
            "n": draw(st.lists(st.integers(1, 6), min_size=1, max_size=3)), "ax": draw(st.integers(0, 2)),
            "form": draw(st.sampled_from(("list", "tuple", "np", "torch"))), "s": draw(gen.SEEDS), "mode": draw(st.sampled_from(gen.SAME_MODES))}


def run_short(c):
    import torch
    from torchimage.filtering import EdgeFilter
    a = gen.values(c["n"], "f64", {"k": "normal", "s": c["s"]})
    ax = c["ax"] % a.ndim
    sp = {"kind": "custom", "edge": c["edge"], "smooth": [], "normalize": False, "pad": {"form": "str", "mode": c["mode"]}}
    f = call(EdgeFilter, gen.container(c["edge"], c["form"]), (), same_padder=c["mode"])
    y = call(f.component, torch.from_numpy(a.copy()), edge_axis=ax, smooth_axes=None)
    want, big = edges.component(a, sp, ax, [])
    cmp.close(y, want, f"edge kernel {c['edge']} {c['mode']}", scale=max(big, 1e-30))
    return a.size > 1 and any(c["edge"]), ["len=%d" % len(c["edge"])]


TESTS = [
    Test("component", run_rand, strategy=rand(), quick=7000),
    Test("hv", run_hv, strategy=hv(), quick=2500),
    Test("short", run_short, strategy=short(), quick=5000),
    Test("large", run_rand, strategy=rand(big=True), quick=1000), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
]
