"""P40 operations leave nothing behind"""
import contextlib
import gc
import io
import os
import random
import sys
import threading
import warnings
import weakref

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise, random_crop

from lib import gen, ops
from lib.core import Test, Violation, call

ID = "P40"
RULE = ("one case = one operation called up to three times, rejected calls included, with process-wide state and the life time of every tensor "
        "and module observed; non-trivial = at least one call returned and at least one tensor had more than one element")
ASSUMPTIONS = ["the random functions advance torch's global generator when none is given, and nothing else",
               "a module may keep its parameters and what it derives from them; images and results are never kept"]
_frozen = []


def fixed(v):
    return v.tobytes() if isinstance(v, np.ndarray) else v


def process(rng=True):
    """process-wide state as a dictionary"""
    out = {
        "default dtype": torch.get_default_dtype(), "default device": str(torch.empty(0).device), "gradient mode": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(), "deterministic algorithms": torch.are_deterministic_algorithms_enabled(),
        "deterministic warn-only": torch.is_deterministic_algorithms_warn_only_enabled(), "threads": torch.get_num_threads(),
        "anomaly mode": torch.is_anomaly_enabled(), "autocast": torch.is_autocast_enabled("cpu"), "matmul precision": torch.get_float32_matmul_precision(),
        "cudnn.benchmark": torch.backends.cudnn.benchmark, "cudnn.deterministic": torch.backends.cudnn.deterministic,
        "mkldnn": torch.backends.mkldnn.enabled, "flush denormal": float(torch.tensor(1e-310, dtype=torch.float64) * 1.0),
        "numpy errors": tuple(sorted(np.geterr().items())), "numpy print options": repr(sorted(np.get_printoptions().items())),
        "torch print options": repr(vars(torch._tensor_str.PRINT_OPTS)) if hasattr(torch._tensor_str, "PRINT_OPTS") else "",
        "warning filters": tuple(warnings.filters), "working directory": os.getcwd(), "environment": tuple(sorted(os.environ.items())),
        "recursion limit": sys.getrecursionlimit(), "live threads": threading.active_count(), "module path": tuple(sys.path),
        "numpy random state": tuple(fixed(v) for v in np.random.get_state()), "python random state": random.getstate(),
    }
    if rng:
        out["torch random state"] = torch.get_rng_state().numpy().tobytes()
    return out


def compare(before, after, what):
    for k, v in before.items():
        if after[k] != v:
            raise Violation(f"{what}: {k} changed" + ("" if len(repr(v)) > 100 else f" from {v!r} to {after[k]!r}"))


@contextlib.contextmanager
def unusual():
    """every observed setting away from its default, so that setting one to the default shows too"""
    with contextlib.ExitStack() as s:
        s.enter_context(warnings.catch_warnings())
        warnings.simplefilter("ignore")
        s.enter_context(np.errstate(divide="ignore", over="ignore", under="warn", invalid="ignore"))
        s.enter_context(np.printoptions(precision=5, suppress=True))
        s.callback(torch.set_num_threads, torch.get_num_threads())
        torch.set_num_threads(3)
        s.callback(torch.use_deterministic_algorithms, False)
        torch.use_deterministic_algorithms(True, warn_only=True)
        s.callback(torch.set_float32_matmul_precision, torch.get_float32_matmul_precision())
        torch.set_float32_matmul_precision("high")
        s.callback(torch.set_flush_denormal, False)
        torch.set_flush_denormal(True)
        s.callback(setattr, torch.backends.cudnn, "benchmark", False)
        torch.backends.cudnn.benchmark = True
        s.callback(setattr, torch.backends.cudnn, "deterministic", False)
        torch.backends.cudnn.deterministic = True
        s.callback(torch.set_anomaly_enabled, False)
        torch.set_anomaly_enabled(True, False)
        yield


@st.composite
def rand(draw):
    sp = draw(ops.strategy(tuple(ops.OPS), numel=80, wide=True))
    return {"sp": sp, "calls": draw(st.lists(st.sampled_from(("ok", "ok", "ok", "axis", "rank", "type")), min_size=1, max_size=3)), "grad": draw(st.booleans()),
            "backward": draw(st.booleans()), "mode": draw(st.sampled_from(("plain", "plain", "no_grad", "default64"))), "unusual": draw(st.integers(0, 3)) == 0, "s": draw(gen.SEEDS)}


def owned(spec, grad, refs):
    """a tensor over a numpy array whose life time shows that of the storage"""
    x = gen.make(spec)[0]
    a = np.ascontiguousarray(x.detach().numpy()).copy()
    t = torch.from_numpy(a)
    if grad and t.is_floating_point():
        t.requires_grad_(True)
    refs.append(("input", weakref.ref(a)))
    refs.append(("input tensor", weakref.ref(t)))
    return t


def once(inst, sp, how, grad, backward, refs):
    """one call; True when it returned.  Everything it made is gone when this frame is."""
    ts = [owned(t, grad, refs) for t in sp["x"]]
    if how == "rank":
        ts = [t.detach().reshape(-1)[:1].reshape(()) for t in ts]
    elif how == "type":
        ts = [None for t in ts]
    nd = len(sp["x"][0]["shape"])
    try:
        if how == "axis":
            ys = inst(ts, amap=[nd + 2] * nd)
        else:
            ys = inst(ts)
    except Exception:
        if how == "ok":
            raise
        return False
    flags = [t.requires_grad for t in ts if torch.is_tensor(t)]
    if how == "ok" and flags != [grad and t.is_floating_point() for t in ts]:
        raise Violation("requires_grad of an input changed")
    for y, _ in ys:
        refs.append(("result", weakref.ref(y)))
        if y._base is not None:
            refs.append(("base of a result", weakref.ref(y._base)))
    if backward and how == "ok":
        z = [y for y, _ in ys if y.requires_grad]
        if z:
            torch.autograd.backward([y.sum() for y in z])
    return True


def run_rand(c):
    sp = c["sp"]
    if not _frozen:  # keeps the collections below short
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    what = f"{sp['op']} {sp['cfg']}"[:400]
    refs = []
    out = io.StringIO()
    with contextlib.ExitStack() as s:
        grad = c["grad"] and c["mode"] != "no_grad"
        if c["mode"] == "no_grad":
            s.enter_context(torch.no_grad())
        elif c["mode"] == "default64" and sp["op"] != "demosaic":
            s.callback(torch.set_default_dtype, torch.get_default_dtype())
            torch.set_default_dtype(torch.float64)
        if c["unusual"]:
            s.enter_context(unusual())
        torch.manual_seed(c["s"])
        before = process()
        s.enter_context(contextlib.redirect_stdout(out))
        inst = call(ops.build, sp)
        mod = inst.mod
        if isinstance(mod, torch.nn.Module):  # parameters are initialised from the global generator
            torch.manual_seed(c["s"])
        compare(before, process(), what + ": construction")
        done = 0
        for how in c["calls"]:
            if how == "ok":
                done += call(once, inst, sp, how, grad, c["backward"], refs)
            else:
                done += once(inst, sp, how, grad, False, refs)
            compare(before, process(), f"{what}: {'call' if how == 'ok' else 'call with a bad ' + how}")
        if out.getvalue():
            raise Violation(f"{what}: wrote {out.getvalue()[:100]!r} to standard output")
    if c["backward"]:  # gradients of the parameters may outlive the call
        for p in (mod.parameters() if isinstance(mod, torch.nn.Module) else ()):
            p.grad = None
    alive(refs, what + ": kept by the module or the process: ")
    if mod is not None:
        refs = [("module", weakref.ref(mod))]
        del mod, inst
        alive(refs, what + ": after the last reference is gone: ")
    big = any(np.prod(t["shape"]) > 1 for t in sp["x"])
    return bool(done and big), ["op=" + sp["op"], c["mode"], "unusual settings" if c["unusual"] else "usual settings", "grad" if grad else "no grad"] + ["call=" + h for h in set(c["calls"])]


def alive(refs, what):
    if any(r() is not None for _, r in refs):
        gc.collect()
    left = sorted({n for n, r in refs if r() is not None})
    if left:
        raise Violation(what + ", ".join(left))


# ---------------------------------------------------------------- the random functions
@st.composite
def rnd(draw):
    shape = draw(gen.shapes(1, 3, 1, 6, 100))
    return {"x": draw(gen.tensors(shape, ("f64", "f32"), ("unit",))), "what": draw(st.sampled_from(("crop", "gauss", "poisson"))), "own": draw(st.booleans()),
            "axes": gen.norm_axes(draw(gen.axes_of(len(shape), 1)), len(shape)), "s": draw(gen.SEEDS), "bad": draw(st.integers(0, 3)) == 0, "cut": draw(st.integers(0, 5))}


def run_rnd(c):
    x = gen.make(c["x"])[0]
    g = torch.Generator().manual_seed(c["s"]) if c["own"] else None
    size = [max(1, c["x"]["shape"][a] - c["cut"]) for a in c["axes"]]
    f = {"crop": lambda: random_crop(x, c["axes"], size, generator=g), "gauss": lambda: add_gauss_noise(x, 0.5, generator=g),
         "poisson": lambda: add_poisson_gauss_noise(x, 0.25, 0.5, generator=g)}[c["what"]]
    torch.manual_seed(c["s"])
    before = process(rng=c["own"])
    call(f)
    compare(before, process(rng=c["own"]), c["what"] + (" with a generator" if c["own"] else " without a generator"))
    if c["bad"] and c["what"] == "crop":
        before = process()
        try:
            random_crop(x, c["axes"], [n + 1 + c["x"]["shape"][a] for n, a in zip(size, c["axes"])], generator=g)
        except Exception:
            pass
        after = process()
        before.pop("torch random state")
        compare(before, after, "rejected crop")
    return x.numel() > 1, [c["what"], "own" if c["own"] else "global"]


TESTS = [Test("traces", run_rand, strategy=rand(), quick=6000), Test("random", run_rnd, strategy=rnd(), quick=1500)]
