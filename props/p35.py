"""P35 ambient settings"""
import contextlib

import numpy as np
import torch
from hypothesis import strategies as st

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P35"
RULE = ("one case = one public operation evaluated under the default process-wide settings and again under others; non-trivial = "
        "at least one setting differs while the operation is built or called")
ASSUMPTIONS = ["settings: default dtype, default device (at the call), gradient mode, deterministic algorithms, thread count, global random state",
               "demosaic builds its filters in the default dtype (documented float32 only), so it is compared under all settings but that one"]
NAMES = tuple(n for n in ops.OPS)
SETTINGS = ("default64", "no_grad", "inference", "deterministic", "seed", "grad_inputs", "threads", "device")


@contextlib.contextmanager
def ambient(which, seed):
    with contextlib.ExitStack() as s:
        if "default64" in which:
            old = torch.get_default_dtype()
            s.callback(torch.set_default_dtype, old)
            torch.set_default_dtype(torch.float64)
        if "no_grad" in which:
            s.enter_context(torch.no_grad())
        if "inference" in which:
            s.enter_context(torch.inference_mode())
        if "deterministic" in which:
            s.callback(torch.use_deterministic_algorithms, False)
            torch.use_deterministic_algorithms(True)
        if "seed" in which:
            torch.manual_seed(seed)
            np.random.seed(seed % 2 ** 31)
        if "threads" in which:
            s.callback(torch.set_num_threads, torch.get_num_threads())
            torch.set_num_threads(2)
        if "device" in which:  # the tensors passed stay where they are
            s.enter_context(torch.device("meta"))
        yield


@st.composite
def rand(draw):
    sp = draw(ops.strategy(NAMES, numel=100, wide=True))
    which = draw(st.lists(st.sampled_from(SETTINGS), min_size=1, max_size=3, unique=True))
    return {"sp": sp, "which": which, "when": draw(st.sampled_from(("build", "call", "both"))), "s": draw(gen.SEEDS)}


def run_rand(c):
    sp, which = c["sp"], list(c["which"])
    if sp["op"] == "demosaic" and "default64" in which:
        which.remove("default64")
    what = f"{sp['op']} {sp['cfg']} under {'+'.join(which)} ({c['when']})"[:500]
    if sp["op"] == "random" and "device" in which:
        which.remove("device")  # the generator lives on the CPU
    xs = [gen.make(t)[0] for t in sp["x"]]
    ref = [y.detach() for y, _ in call(call(ops.build, sp), xs)]
    grad = "grad_inputs" in which and "inference" not in which
    ys = [x.detach().clone().requires_grad_(True) if grad and x.is_floating_point() else x for x in xs]
    off = ()
    with ambient([w for w in which if w not in ("inference", "device")] if c["when"] != "call" else off, c["s"]):  # parameters are made in neither
        inst = call(ops.build, sp)
    with ambient(which if c["when"] != "build" else off, c["s"]):
        got = [y for y, _ in call(inst, ys)]
    cmp.is_true(len(got) == len(ref), what + ": number of results")
    tol = 1e-9 if sp["x"][0]["dtype"] == "f64" else 1e-3
    for y, r in zip(got, ref):
        cmp.close(y, r.numpy(), what, dtype=r.dtype, ulp=0, atol=tol * max(1.0, float(r.abs().nan_to_num(0, 0, 0).max()) if r.numel() else 0.0))
    return bool(which), ["op=" + sp["op"], c["when"]] + which


TESTS = [Test("ambient", run_rand, strategy=rand(), quick=6000)]
