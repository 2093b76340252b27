"""P37 locality of non-finite and extreme pixels"""
import numpy as np
import torch
from hypothesis import strategies as st

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P37"
RULE = ("one case = one operation on finite images and again with one pixel replaced by nan, an infinity or a huge value; "
        "non-trivial = the pixel matters to some results and not to others")
ASSUMPTIONS = ["a result depends on a pixel when adding or subtracting 1000 there changes it; a kernel may also touch results within "
               "its own reach of those (weights of zero), never further", "scalar scores depend on every pixel and are not covered"]
NAMES = ("pad", "pool", "pool", "edge", "laplace", "unsharp", "mse", "ssim", "bayer", "bayerconv", "demosaic", "laststep", "poly1d",
         "power", "outer", "anyconv")
EPS = {"f64": 1e-10, "f32": 2e-3}


@st.composite
def rand(draw):
    sp = draw(ops.strategy(NAMES, numel=12, long=True, wide=True))
    k = draw(st.integers(0, len(sp["x"]) - 1))
    pos = [draw(st.one_of(st.integers(0, n - 1), st.sampled_from((0, n - 1)))) for n in sp["x"][k]["shape"]]
    for t in sp["x"]:
        if t["layout"].startswith("expand"):
            t["layout"] = "c"
    return {"sp": sp, "k": k, "pos": pos, "v": draw(st.sampled_from(("nan", "nan", "inf", "-inf", "1e30", "-1e20")))}


def spread(m, axes, r, ends):
    """m dilated by r along the given axes, and both ends of them on demand"""
    for a in axes:
        c = m.copy()
        n = m.shape[a]
        if ends and n:
            idx = [slice(None)] * m.ndim
            for idx[a] in (slice(0, r), slice(max(0, n - r), n)):
                c[tuple(idx)] = True
        for d in range(1, min(r, n - 1) + 1):
            lo, hi = [slice(None)] * m.ndim, [slice(None)] * m.ndim
            lo[a], hi[a] = slice(0, n - d), slice(d, n)
            c[tuple(lo)] |= m[tuple(hi)]
            c[tuple(hi)] |= m[tuple(lo)]
        m = c
    return m


def reach(sp, labels, nd):
    """(axes of the output along which a kernel extends, how far)"""
    op = sp["op"]
    if op in ("pool", "edge", "laplace", "unsharp", "ssim"):
        return [i for i, a in enumerate(labels) if a in sp["axes"] or op == "edge"], max(14 if op == "ssim" else 8, sp.get("kmax", 0))
    if op == "pad":  # the end of a ramp has weight zero
        return list(sp["axes"]), 1
    if op in ("bayerconv", "demosaic"):
        return [nd - 3, nd - 2, nd - 1], 8
    if op == "anyconv":
        return [sp["cfg"]["dim"] % nd], 8
    return [], 0


def run_rand(c):
    sp, pos = c["sp"], tuple(c["pos"])
    arrs = ops.arrays(sp)
    dt = sp["x"][c["k"]]["dtype"]
    what = f"{sp['op']} axes={sp['axes']} {sp['cfg']} with {c['v']} at {pos} of input {c['k']}"[:500]

    if len(sp["axes"] or ()) > 1 and any(m in repr(sp["cfg"]) for m in ("median", "maximum", "minimum")):
        return False, ["op=" + sp["op"], "order statistics of order statistics"]

    def at(v, add=False):
        vals = [a.copy() for a in arrs]
        vals[c["k"]][pos] = v + (vals[c["k"]][pos] if add else 0)
        inst = call(ops.build, sp)
        return call(inst, [gen.tensor_of(a, t["layout"]) for a, t in zip(vals, sp["x"])])
    base, up, down = at(0, True), at(1000, True), at(-1000, True)
    got = at(float(c["v"]))
    hits = away = 0
    # borders filled from afar meet kernels with weights of zero
    ends = sp["op"] != "pad" and any(m in repr(sp["cfg"]) for m in ("circular", "periodize", "mean", "median", "maximum", "minimum"))
    for (y, lab), (p, _), (q, _), (g, _) in zip(base, up, down, got):
        y, p, q, g = (t.detach().numpy().astype(np.float64) for t in (y, p, q, g))
        if sp["op"] == "mse" and sp["cfg"]["red"] != "none" and y.ndim == 0:
            continue
        if sp["op"] == "ssim" and y.ndim < arrs[0].ndim:
            continue
        cmp.is_true(g.shape == y.shape, what + ": the shape depends on the values")
        if not np.isfinite(y).all():
            return False, ["op=" + sp["op"], "non-finite before"]
        tol = EPS[dt] * np.maximum(1.0, np.abs(y))
        with np.errstate(invalid="ignore"):
            changed = ~((np.abs(p - y) <= tol) & (np.abs(q - y) <= tol))
            sure = (np.abs(p - y) > 10 * tol) & np.isfinite(p) | (np.abs(q - y) > 10 * tol) & np.isfinite(q)
        axes, r = reach(sp, lab, y.ndim)
        if axes and not changed.any():
            continue  # only weights of zero touch it: nothing says where
        far = ~spread(changed, axes, r, ends)
        if y.shape == arrs[c["k"]].shape:  # 0 * nan in its own place
            far[pos] = False
        with np.errstate(invalid="ignore"):
            bad = far & ~(np.abs(g - y) <= tol)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f"{what}: result at {i} became {g[i]!r} from {y[i]!r}, although it does not depend on that pixel ({int(bad.sum())} results)")
        if c["v"] == "nan":
            lost = sure & ~np.isnan(g)
            if lost.any():
                i = tuple(int(v) for v in np.argwhere(lost)[0])
                raise Violation(f"{what}: result at {i} is {g[i]!r}, although it depends on that pixel ({int(lost.sum())} results)")
        hits += int(sure.sum())
        away += int(far.sum())
    return hits > 0 and away > 0, ["op=" + sp["op"], c["v"]]


TESTS = [Test("locality", run_rand, strategy=rand(), quick=6000)]
