"""P38 the tensor's device"""
import copy

import torch
from hypothesis import strategies as st
from torch import nn
from torch._subclasses.fake_tensor import (DataDependentOutputException, DynamicOutputShapeException, FakeTensor, FakeTensorMode,
                                           UnsupportedOperatorException)
from torch.fx.experimental.symbolic_shapes import GuardOnDataDependentSymNode, ShapeEnv

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P38"
RULE = ("one case = one public operation built and called on tensors of a simulated second device (shape, dtype and device propagation without "
        "values), compared with the CPU run; non-trivial = the whole operation could be followed without values")
ASSUMPTIONS = ["the device is simulated by torch's FakeTensorMode, which rejects operations that mix devices as a real one does",
               "module parameters are moved to the device; parameters given as CPU tensors are allowed only where torch allows them (scalars)",
               "truth values of device tensors are chosen by the generator", "operations that return Python numbers or use CPU generators are excluded"]
NAMES = tuple(n for n in ops.OPS if n not in ("describe", "random"))
UNKNOWN = (DataDependentOutputException, DynamicOutputShapeException, UnsupportedOperatorException, GuardOnDataDependentSymNode)


@st.composite
def rand(draw):
    return {"sp": draw(ops.strategy(NAMES, numel=100, wide=True)), "bits": draw(st.lists(st.booleans(), max_size=6)), "grad": draw(st.booleans())}


def moved(module, dev):
    """parameters and buffers of a module as tensors of the simulated device"""
    for m in module.modules() if isinstance(module, nn.Module) else ():
        for d in (m._parameters, m._buffers):
            for k, v in d.items():
                if v is not None:
                    w = torch.empty(v.shape, dtype=v.dtype, device=dev)
                    d[k] = nn.Parameter(w, requires_grad=v.requires_grad) if isinstance(v, nn.Parameter) else w
    return module


def as_array(t):
    if t.device.type != "cpu":
        raise TypeError(f"can't convert a tensor on device {t.device} to numpy")
    raise NoValues()


class NoValues(Exception):
    pass


class Truth:
    """truth values of tensors without values"""

    def __init__(self, bits):
        self.bits, self.used = list(bits), 0

    def __enter__(self):
        FakeTensor.__bool__ = lambda t: self.next()
        FakeTensor.numpy = lambda t, *a, **k: as_array(t)
        FakeTensor.__array__ = lambda t, *a, **k: as_array(t)
        return self

    def next(self):
        self.used += 1
        return self.bits.pop(0) if self.bits else False

    def __exit__(self, *a):
        del FakeTensor.__bool__, FakeTensor.numpy, FakeTensor.__array__


def run_rand(c):
    sp = c["sp"]
    what = f"{sp['op']} {sp['cfg']} on another device"[:400]
    xs = [gen.make(t)[0] for t in sp["x"]]
    inst = call(ops.build, sp)
    want = call(inst, xs)
    dev = torch.device("cuda", 0)
    mode = FakeTensorMode(shape_env=ShapeEnv(allow_scalar_outputs=True, allow_dynamic_output_shape_ops=True), static_shapes=True,
                          allow_non_fake_inputs=True)
    plain = ops.demosaic
    twin = copy.deepcopy(plain) if sp["op"] == "demosaic" else None
    with Truth(c["bits"]) as t, mode:
        try:
            fs = [torch.empty_strided(x.shape, x.stride(), dtype=x.dtype, device=dev) for x in xs]
            for f in fs:
                if c["grad"] and f.is_floating_point():
                    f.requires_grad_(True)
            if sp["op"] == "demosaic":
                ops.demosaic = moved(twin, dev)
            if inst.mod is not None:
                moved(inst.mod, dev)
            got = inst(fs)
        except UNKNOWN + (NoValues,):
            return False, ["op=" + sp["op"], "needs values"]
        except Exception as e:
            msg = f"{type(e).__name__}: {str(e)[:300]}"
            if t.used and "device" not in msg:
                return False, ["op=" + sp["op"], "impossible truth values"]
            raise Violation(f"{what} raised {msg}") from e
        finally:
            ops.demosaic = plain
        cmp.is_true(len(got) == len(want), what + ": number of results")
        for (y, _), (w, _) in zip(got, want):
            cmp.is_true(torch.is_tensor(y), what + f": result is {type(y).__name__}")
            cmp.is_true(y.device == dev, what + f": the result is on {y.device}")
            cmp.is_true(tuple(int(s) for s in y.shape) == tuple(w.shape), what + f": shape {tuple(y.shape)}, on the CPU {tuple(w.shape)}")
            cmp.is_true(y.dtype == w.dtype, what + f": dtype {y.dtype}, on the CPU {w.dtype}")
    return True, ["op=" + sp["op"], "truth values=%d" % min(t.used, 3)]


TESTS = [Test("device", run_rand, strategy=rand(), quick=2000)]
