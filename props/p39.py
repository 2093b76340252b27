"""P39 precision of the images"""
import numpy as np
import torch
from hypothesis import strategies as st

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P39"
RULE = ("one case = one operation on images of a 16-bit floating type (values: compared with the same operation in float64 on the same "
        "numbers, tolerance calibrated by its own float32 error) or of float32 / float64 (type only); non-trivial = a 16-bit type with "
        "finite, varying results")
ASSUMPTIONS = ["module parameters are moved to the images' type", "describe (torch.quantile) and demosaic (float32) are excluded",
               "SSIM, MS-SSIM and the quotient loss cancel catastrophically: type and shape only", "results that overflow float16 are not judged",
               "no dead zone in unsharp masking (its edge moves with rounding)"]
NAMES = tuple(n for n in ops.OPS if n not in ("describe", "demosaic"))
TYPES = {"f16": torch.float16, "bf16": torch.bfloat16, "f32": torch.float32, "f64": torch.float64}


@st.composite
def rand(draw):
    sp = draw(ops.strategy(NAMES, dtypes=("f64",), numel=120, wide=True))
    if "dt" in sp["cfg"]:
        sp["cfg"]["dt"] = "f64"
    if "thr" in sp["cfg"]:
        sp["cfg"]["thr"] = 0
    return {"sp": sp, "dt": draw(st.sampled_from(("f16", "f16", "bf16", "bf16", "f32", "f64")))}


def run_rand(c):
    sp, dt = c["sp"], TYPES[c["dt"]]
    what = f"{sp['op']} axes={sp['axes']} {sp['cfg']} on {c['dt']} images"[:500]
    half = [gen.make(t)[0].to(dt) for t in sp["x"]]

    def at(d):
        inst = call(ops.build, sp)
        if isinstance(inst.mod, torch.nn.Module) and list(inst.mod.parameters()):
            inst.mod.to(dt).to(d)
        return [t.detach() for t, _ in call(inst, [t.to(d) for t in half])]
    got = at(dt)
    ref, mid = (got, got) if dt == torch.float64 else (at(torch.float64), at(torch.float32))
    judged = False
    blind = sp["op"] in ("ssim", "msssim", "random") or (sp["op"] == "edgeloss" and sp["cfg"]["cls"] == 2)
    for y, r, z in zip(got, ref, mid):
        if y.dtype != dt:
            raise Violation(f"{what}: the result is {y.dtype}")
        cmp.shape_is(y, r.shape, what)
        if blind or c["dt"] in ("f32", "f64"):
            continue
        y, r, z = (t.to(torch.float64).numpy() for t in (y, r, z))
        if not (np.isfinite(r).all() and np.isfinite(z).all()) or not r.size:
            continue
        if c["dt"] == "f16" and not np.isfinite(y).all() and not sp["op"] in ("pad", "pool", "bayer", "laststep"):
            continue
        eps = torch.finfo(dt).eps
        tol = 16 * (eps * max(1.0, float(np.abs(r).max())) + eps / 1.2e-7 * float(np.abs(z - r).max()))
        bad = ~(np.abs(y - r) <= tol)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f"{what}: {y[i]!r} at {i}, {r[i]!r} in float64 (tolerance {tol:.3g}, {int(bad.sum())} results)")
        judged |= len(np.unique(r)) > 1
    return judged or (blind and c["dt"] in ("f16", "bf16")), ["op=" + sp["op"], c["dt"]]


TESTS = [Test("precision", run_rand, strategy=rand(), quick=6000)]
