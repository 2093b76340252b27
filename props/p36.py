"""P36 interleaved threads"""
from hypothesis import strategies as st

from lib import cmp, gen, ops
from lib.core import Test, Violation
from lib.sched import Sched

ID = "P36"
RULE = ("one case = 2-3 threads, each building and calling its own operation, interleaved at the statements of torchimage by a generated "
        "schedule; non-trivial = control passed between unfinished threads at least twice")
ASSUMPTIONS = ["threads share no module, padder or random generator (a padder re-widths itself on every use); threads switch only "
               "between lines of torchimage code"]
NAMES = tuple(ops.OPS)


@st.composite
def rand(draw):
    n = draw(st.sampled_from((2, 2, 3)))
    first = draw(ops.strategy(NAMES, numel=60, wide=True))
    specs = [first]
    for _ in range(n - 1):
        k = draw(st.sampled_from(("same", "twist", "kind", "any")))
        if k == "twist":
            specs.append(ops.twist(first))
        elif k == "same":  # the same call on other values
            s = draw(gen.SEEDS)
            specs.append(dict(first, x=[dict(t, fill={"k": "unit", "s": s + i}) for i, t in enumerate(first["x"])]))
        else:
            specs.append(draw(ops.strategy((first["op"],) if k == "kind" else NAMES, numel=60)))
    # control passes on at these per-mille of the statements executed by all threads together
    cuts = draw(st.lists(st.integers(0, 999), min_size=2, max_size=12, unique=True))
    return {"specs": specs, "cuts": cuts, "to": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=12)), "calls": draw(st.sampled_from((1, 1, 2)))}


def run_rand(c):
    data = [[gen.make(t)[0] for t in sp["x"]] for sp in c["specs"]]

    def job(sp, xs):
        def f():
            inst = ops.build(sp)
            out = []
            for _ in range(c["calls"]):
                out += [y.detach().clone() for y, _ in inst(xs)]
            return out
        return f
    want, lines = [], 0
    for sp, xs in zip(c["specs"], data):
        alone = Sched(1, [])
        ((v, e),) = alone.run([job(sp, xs)])
        if e is not None:
            raise Violation(f"{sp['op']} {sp['cfg']} raised {type(e).__name__}: {str(e)[:300]}")
        want.append(v)
        lines += alone.lines[0]
    at = [lines * k // 1000 for k in sorted(c["cuts"])]
    segs, prev, who = [], 0, 0
    for i, a in enumerate(at):
        segs.append((who, max(1, a - prev)))
        prev, to = a, c["to"][i % len(c["to"])]
        who = to if to != who else who + 1
    segs += [(who + j, 1 << 60) for j in range(len(data))]
    s = Sched(len(data), segs)
    got = s.run([job(sp, xs) for sp, xs in zip(c["specs"], data)])
    for sp, (v, e), w in zip(c["specs"], got, want):
        what = f"{sp['op']} {sp['cfg']} interleaved with {[q['op'] for q in c['specs'] if q is not sp]}"[:400]
        if e is not None:
            raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]}")
        cmp.is_true(len(v) == len(w), what + ": number of results")
        for y, r in zip(v, w):
            cmp.equal(y, r.numpy(), what, dtype=r.dtype)
    names = sorted(sp["op"] for sp in c["specs"])
    return s.switches >= 2, ["threads=%d" % len(names), "same op" if len(set(names)) == 1 else "mixed", "switches=" + ("0" if not s.switches else "1-5" if s.switches < 6 else ">5")]


@st.composite
def pairs(draw):
    """two calls of one operation with different numbers; the first is interrupted once, at every statement in turn"""
    name = draw(st.sampled_from(("pad", "pad", "pad") + NAMES))
    first = draw(ops.strategy((name,), numel=40))
    for t in first["x"]:
        t["layout"] = "c"
    return {"first": first, "other": ops.twist(first) if draw(st.integers(0, 3)) else draw(ops.strategy((name,), numel=40))}


def run_pairs(c):
    specs = [c["first"], c["other"]]
    data = [[gen.make(t)[0] for t in sp["x"]] for sp in specs]

    def job(sp, xs):
        return lambda: [y.detach().clone() for y, _ in ops.build(sp)(xs)]
    want, log = [], []
    for sp, xs in zip(specs, data):
        alone = Sched(1, [])
        alone.keep = sp is specs[0]
        ((v, e),) = alone.run([job(sp, xs)])
        if e is not None:
            raise Violation(f"{sp['op']} {sp['cfg']} raised {type(e).__name__}: {str(e)[:300]}")
        want.append(v)
        log = log or alone.log
    first = {}
    last = {}
    for i, q in enumerate(log):
        first.setdefault(q, i)
        last[q] = i
    cuts = sorted(set(first.values()) | set(last.values()))
    cuts = [k for k in cuts if k > 0]
    if len(cuts) > 150:
        cuts = cuts[::-(-len(cuts) // 150)]
    for k in cuts:
        s = Sched(2, [(0, k), (1, 1 << 60), (0, 1 << 60)])
        got = s.run([job(sp, xs) for sp, xs in zip(specs, data)])
        for sp, (v, e), w in zip(specs, got, want):
            what = f"{sp['op']} {sp['cfg']}; the first call was interrupted before {log[k][0].rpartition('/')[2]}:{log[k][1]} by one with {c['other']['cfg']}"[:600]
            if e is not None:
                raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]}")
            cmp.is_true(len(v) == len(w), what + ": number of results")
            for y, r in zip(v, w):
                cmp.equal(y, r.numpy(), what, dtype=r.dtype)
    return len(cuts) > 1, ["op=" + specs[0]["op"], "interruptions=" + ("<20" if len(cuts) < 20 else "20-59" if len(cuts) < 60 else "60+")]


TESTS = [Test("interleaved", run_rand, strategy=rand(), quick=2000), Test("interrupted", run_pairs, strategy=pairs(), quick=220)]
