"""P34 copies of modules"""
import copy
import io
import pickle

import torch
from hypothesis import strategies as st
from torch import nn
from torchimage.padding import Padder
from torchimage.pooling.base import BasePoolNd

from lib import cmp, gen, ops
from lib.core import Test, Violation, call

ID = "P34"
RULE = ("one case = one configured padder or module, copied, with the original or the copy used and reconfigured afterwards; "
        "non-trivial = the other one was used on different data or reconfigured in between")
ASSUMPTIONS = ["padders whose mode is a user-supplied function are not pickled"]
NAMES = ("pad", "pool", "pool", "edge", "laplace", "unsharp", "mse", "ssim", "msssim", "bayerconv", "edgeloss")


@st.composite
def rand(draw):
    sp = draw(ops.strategy(NAMES, numel=80, wide=True))
    return {"sp": sp, "how": draw(st.sampled_from(("deepcopy", "pickle", "torch"))), "used": draw(st.booleans()),
            "hit": draw(st.sampled_from(("copy", "orig"))), "turn": draw(st.booleans()), "s": draw(gen.SEEDS)}


def clone(m, how):
    if how == "deepcopy":
        return copy.deepcopy(m)
    if how == "pickle":
        return pickle.loads(pickle.dumps(m))
    b = io.BytesIO()
    torch.save(m, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


def parts(m):
    """every reconfigurable object inside a module"""
    out = [m] if isinstance(m, Padder) else []
    for q in (m.modules() if isinstance(m, nn.Module) else ()):
        if isinstance(q, BasePoolNd):
            out.append(q)
    return out


def other(sp, s):
    return [gen.make(dict(t, fill={"k": "unit", "s": s + i}, layout="c"))[0] for i, t in enumerate(sp["x"])]


def run_rand(c):
    sp = c["sp"]
    what = f"{sp['op']} {sp['cfg']}"[:400]
    xs = [gen.make(t)[0] for t in sp["x"]]
    want = [y.detach().clone() for y, _ in call(call(ops.build, sp), xs)]
    inst = call(ops.build, sp)
    if c["used"]:
        call(inst, other(sp, c["s"]))
    try:
        twin = clone(inst.mod, c["how"])
    except Exception as e:
        raise Violation(f"{what}: {c['how']} of the {'used ' if c['used'] else ''}module raised {type(e).__name__}: {str(e)[:200]}") from e
    second = ops.Inst(inst.fn, mod=twin)

    def check(i, who):
        got = call(i, xs)
        cmp.is_true(len(got) == len(want), f"{what}: {who}: number of results")
        for (y, _), w in zip(got, want):
            cmp.equal(y, w.numpy(), f"{what}: {who}", dtype=w.dtype)
    check(second, c["how"])
    hit, keep = (second, inst) if c["hit"] == "copy" else (inst, second)
    call(hit, other(sp, c["s"] + 9))
    if c["turn"]:
        for q in parts(hit.mod):
            if isinstance(q, Padder):
                call(q.to_same, 5, 1, None)
            else:
                call(q.to_filter, "circular" if q.same_padder is None or c["s"] % 2 else None)
        for p in (hit.mod.parameters() if isinstance(hit.mod, nn.Module) else ()):
            with torch.no_grad():
                p.add_(1)
    check(keep, f"{c['how']}, after the {'copy' if c['hit'] == 'copy' else 'original'} was {'reconfigured' if c['turn'] else 'used'}")
    return True, ["op=" + sp["op"], c["how"], "used" if c["used"] else "new", "hit=" + c["hit"], "turn" if c["turn"] else "use"]


@st.composite
def state(draw):
    return {"sp": draw(ops.strategy(("bayerconv",), numel=80)), "file": draw(st.booleans())}


def run_state(c):
    sp = c["sp"]
    xs = [gen.make(t)[0] for t in sp["x"]]
    inst = call(ops.build, sp)
    want = [y.detach().clone() for y, _ in call(inst, xs)]
    fresh = call(ops.build, dict(sp, cfg=dict(sp["cfg"], ws=sp["cfg"]["ws"] + 1)))
    sd = call(inst.mod.state_dict)
    if c["file"]:
        b = io.BytesIO()
        torch.save(sd, b)
        b.seek(0)
        sd = torch.load(b)
    call(fresh.mod.load_state_dict, sd)
    for (y, _), w in zip(call(fresh, xs), want):
        cmp.equal(y, w.numpy(), f"BayerConv {sp['cfg']} restored from its state dict", dtype=w.dtype)
    return True, ["file" if c["file"] else "dict", "un=%d" % sp["cfg"]["un"]]


TESTS = [Test("copy", run_rand, strategy=rand(), quick=5000), Test("state", run_state, strategy=state(), quick=400)]
