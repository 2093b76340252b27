"""P27 any_conv_1d"""
import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.pooling.operator import any_conv_1d

from lib import cmp, gen, ref
from lib.core import Test, call

ID = "P27"
RULE = ("one case = one any_conv_1d call; non-trivial = kernel length >= 2 with unequal weights and stride or dilation above 1 or an "
        "axis that is not the last")
ASSUMPTIONS = ["axes at least as long as the dilated kernel; x and w of one floating dtype"]


@st.composite
def rand(draw, big=False):
    shape = draw(gen.huge_shapes(1, 3, 1)) if big == "huge" else draw(gen.shapes(1, 3, 1, 40, 1500)) if big else draw(gen.shapes(1, 6, 1, 7, 500))
    d = draw(st.integers(0, len(shape) - 1))
    kern = draw(gen.kernels(1, 75 if big == "huge" else 24 if big else 5, exact=False))
    dil, stride = draw(st.sampled_from([1, 1, 2, 3, 4, 6])), draw(st.sampled_from([1, 1, 2, 3, 5, 7]))
    if big and draw(st.integers(0, 3)) == 0:  # far-reaching
        dil = draw(st.sampled_from([16, 33, 64, 128, 300]))
        kern = kern[:max(1, 700 // dil)]
    span = (len(kern) - 1) * dil + 1
    shape[d] = span + draw(st.integers(0, 60 if big else 9))
    return {"x": draw(gen.tensors(shape, kinds=("normal", "int", "seq", "basis", "dots"))), "w": kern, "wl": draw(gen.layouts(1, expand=False)) if draw(st.booleans()) else "c",
            "dim": d - len(shape) if draw(st.booleans()) else d, "stride": stride, "dil": dil}


def run_rand(c):
    x, a = gen.make(c["x"])
    wa = np.array(c["w"], dtype=a.dtype)
    w = gen.tensor_of(wa, c["wl"])
    if not w.is_contiguous():
        w = w.contiguous() if c["wl"].startswith("step") else w
    what = f"any_conv_1d(shape {a.shape}, w={c['w']}, dim={c['dim']}, stride={c['stride']}, dilation={c['dil']})"
    y = call(any_conv_1d, x, w, dim=c["dim"], stride=c["stride"], dilation=c["dil"])
    v = np.moveaxis(a.astype(np.float64), c["dim"], 0)
    n = (v.shape[0] - (len(wa) - 1) * c["dil"] - 1) // c["stride"] + 1
    out, scale = np.zeros((n,) + v.shape[1:]), np.zeros((n,) + v.shape[1:])
    for i in range(n):
        for j, q in enumerate(wa.astype(np.float64)):
            out[i] += q * v[i * c["stride"] + j * c["dil"]]
            scale[i] += abs(q * v[i * c["stride"] + j * c["dil"]])
    cmp.close(y, np.moveaxis(out, 0, c["dim"]), what, dtype=x.dtype, scale=np.moveaxis(scale, 0, c["dim"]) + 1e-300, ulp=64, elementwise=True)
    cmp.equal(x, a, what + ": x afterwards")
    cmp.equal(w, wa, what + ": w afterwards")
    d = c["dim"] % a.ndim
    return (len(set(c["w"])) > 1 and (c["stride"] > 1 or c["dil"] > 1 or d < a.ndim - 1)), \
        ["nd=%d" % a.ndim, "last" if d == a.ndim - 1 else "first" if d == 0 else "middle", "neg" if c["dim"] < 0 else "pos", c["x"].get("layout", "c")[:4],
         "stride=%d" % c["stride"], "dil=%d" % c["dil"]]


@st.composite
def empties(draw):
    shape = draw(gen.shapes(2, 5, 1, 5, 300))
    d = draw(st.integers(0, len(shape) - 1))
    kern, dil = draw(gen.kernels(1, 5, exact=False)), draw(st.integers(1, 4))
    shape[d] = (len(kern) - 1) * dil + 1 + draw(st.integers(0, 9))
    e = draw(st.sampled_from([i for i in range(len(shape)) if i != d]))
    return {"shape": shape, "d": d, "neg": draw(st.booleans()), "e": e, "w": kern, "dil": dil, "stride": draw(st.integers(1, 4)),
            "dt": draw(st.sampled_from(("f64", "f32")))}


def run_empties(c):
    """a batch without images has the shape and type of any other batch"""
    one = torch.ones(c["shape"], dtype={"f64": torch.float64, "f32": torch.float32}[c["dt"]])
    w = torch.tensor(c["w"], dtype=one.dtype)
    none = one.narrow(c["e"], 0, 0)
    dim = c["d"] - one.ndim if c["neg"] else c["d"]
    want = list(call(any_conv_1d, one, w, dim=dim, stride=c["stride"], dilation=c["dil"]).shape)
    want[c["e"]] = 0
    y = call(any_conv_1d, none, w, dim=dim, stride=c["stride"], dilation=c["dil"])
    what = f"any_conv_1d(empty {tuple(none.shape)}, {len(c['w'])} weights, dim={dim}, stride={c['stride']}, dilation={c['dil']})"
    cmp.shape_is(y, want, what)
    cmp.is_true(y.dtype == one.dtype, f"{what}: {y.dtype}")
    return True, ["last" if c["d"] == one.ndim - 1 else "inner"]


TESTS = [Test("conv", run_rand, strategy=rand(), quick=12000), Test("large", run_rand, strategy=rand(big=True), quick=500), Test("huge", run_rand, strategy=rand(big="huge"), quick=150),
         Test("empty", run_empties, strategy=empties(), quick=1500)]
