"""Test engine run inside a worker process: generation, recording, shrinking, watchdog."""
import hashlib
import json
import mmap
import os
import random
import struct
import sys
import threading
import time
import traceback

from .boot import REPO


class Violation(Exception):
    """The code under test broke the property on this case."""


class _Enough(Exception):
    pass


def call(f, *args, **kwargs):
    """Call into torchimage on an input of the property's domain: raising is a violation."""
    try:
        return f(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:
        name = getattr(f, "__qualname__", getattr(f, "__name__", str(f)))
        raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]}") from e


def rejects(f, *args, exc=Exception, what="", **kwargs):
    """Call into torchimage on an invalid input: not raising (or raising another kind) is a violation."""
    try:
        r = f(*args, **kwargs)
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: expected {getattr(exc, '__name__', exc)}, raised {type(e).__name__}: {str(e)[:200]}") from e
    raise Violation(f"{what}: expected rejection, returned {str(r)[:200]}")


UNUSABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, RuntimeError, AssertionError)


class Test:
    """run(case) -> (nontrivial: bool, labels: iterable of str); raises Violation.

    Either `strategy` (a Hypothesis strategy, or a function of the tier returning one) with the
    numbers of examples quick/thorough, or `enum` (a function of the tier yielding cases)."""

    def __init__(self, name, run, strategy=None, enum=None, quick=1000, thorough=None, single=False):
        self.name, self.run, self.strategy, self.enum = name, run, strategy, enum
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.single = single  # run in one worker only (e.g. expensive fixed sweeps)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def derive(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


class Recorder:
    CASE_CPU_LIMIT = 90.0      # CPU seconds for one (tiny) case before it counts as non-terminating
    SHRINK_LIMIT = 0.2 if os.environ.get("VERIF_FAST") == "1" else 45.0

    def __init__(self, ctx, blackbox_path):
        self.ctx = ctx
        self.tests = {}
        self.violations = []
        self.f = open(blackbox_path, "w+b")
        self.f.truncate(1 << 20)
        self.mm = mmap.mmap(self.f.fileno(), 1 << 20)
        self.case_started = None
        self.cur = None
        self._lock = threading.Lock()
        t = threading.Thread(target=self._watch, daemon=True)
        t.start()

    # -- black box: the case being executed, readable by the parent if this process dies
    def _box(self, test_name, text):
        b = (test_name + "\n" + text).encode()[: (1 << 20) - 16]
        self.mm[4:4 + len(b)] = b
        self.mm[0:4] = struct.pack("<I", len(b))

    def _unbox(self):
        self.mm[0:4] = struct.pack("<I", 0)

    def _watch(self):
        while True:
            time.sleep(1.0)
            started, cur = self.case_started, self.cur
            if started is None or cur is None:
                continue
            if time.process_time() - started > self.CASE_CPU_LIMIT and self.cur is cur:
                name, case = cur
                self.violations.append({"test": name, "case": case, "kind": "nontermination",
                                        "message": f"one case did not finish within {self.CASE_CPU_LIMIT:.0f} s of CPU time"})
                self.ctx["flush"](self)
                os._exit(0)

    def stat(self, name):
        return self.tests.setdefault(name, {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [],
                                            "n_nontrivial": 0})

    def execute(self, test, case, count=True):
        """Runs one case; returns None or the violation message. Harness errors propagate."""
        text = canon(case)
        self.cur = (test.name, case)
        self._box(test.name, text)
        self.case_started = time.process_time()
        msg = None
        try:
            try:
                out = test.run(case)
            except Violation as e:
                msg = str(e) or "violation"
            except Exception as e:
                if _from_repo(e):
                    msg = f"raised {type(e).__name__}: {str(e)[:300]}"
                elif isinstance(e, UNUSABLE):
                    # the oracle reads every documented result form without error (it does so on
                    # all generated cases of a correct tree); a result it cannot read is a wrong result
                    fr = traceback.extract_tb(e.__traceback__)[-1]
                    msg = (f"the result has an unusable form: {type(e).__name__}: {str(e)[:300]} "
                           f"({os.path.basename(fr.filename)}:{fr.lineno})")
                else:
                    raise
        finally:
            self.case_started = None
            self._unbox()
        if count:
            st = self.stat(test.name)
            st["evaluations"] += 1
            if msg is None:
                nt, labels = out
                for l in labels:
                    st["labels"][l] = st["labels"].get(l, 0) + 1
                if nt:
                    h = int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), "big")
                    if h not in st["nontrivial"]:
                        st["nontrivial"].add(h)
                        k = len(st["nontrivial"])
                        # a few samples spread over the run
                        if k in (1, 20, 200, 2000) and len(text) < 3000:
                            st["samples"].append(case)
        return msg


def _from_repo(e):
    root = os.path.realpath(os.path.join(REPO, "torchimage"))
    while e is not None:
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(root):
                return True
        e = e.__cause__ or e.__context__
    return False


def run_hyp(test, n, seed, rec, tier):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    strat = test.strategy(tier) if callable(test.strategy) else test.strategy
    state = {"best": None, "t0": None, "harness": None}

    def body(case):
        if state["harness"] is not None:
            return
        shrinking = state["t0"] is not None
        if shrinking and time.monotonic() - state["t0"] > rec.SHRINK_LIMIT:
            return  # stop shrinking: nothing fails any more, the engine gives up quickly
        try:
            msg = rec.execute(test, case, count=not shrinking)
        except hypothesis.errors.HypothesisException:
            raise
        except Exception:
            state["harness"] = traceback.format_exc() + "\ncase: " + canon(case)[:4000]
            return
        if msg is not None:
            if state["t0"] is None:
                state["t0"] = time.monotonic()
            text = canon(case)
            if state["best"] is None or (len(text), text) < (len(state["best"][0]), state["best"][0]):
                state["best"] = (text, case, msg)
            raise Violation("property violated")

    wrapped = hypothesis.seed(seed)(settings(
        max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
        verbosity=Verbosity.quiet, derandomize=False)(given(strat)(body)))
    try:
        wrapped()
    except Violation:
        pass
    except Exception as e:
        if state["best"] is None:
            raise
        # flaky under shrinking: the recorded failure stands
    if state["harness"] is not None and state["best"] is None:
        raise RuntimeError("harness error in test %s:\n%s" % (test.name, state["harness"]))
    if state["best"] is not None:
        text, case, msg = state["best"]
        rec.violations.append({"test": test.name, "case": case, "kind": "case", "message": msg})
        return False
    return True


def run_enum(test, rec, tier, worker, nworkers):
    for i, case in enumerate(test.enum(tier)):
        if not test.single and i % nworkers != worker:
            continue
        msg = rec.execute(test, case)
        if msg is not None:
            rec.violations.append({"test": test.name, "case": case, "kind": "case", "message": msg})
            return False
    return True


def run_worker(prop, tier, seed, worker, nworkers, rec):
    for k, test in enumerate(prop.TESTS):
        if test.single and (k % nworkers) != worker:
            continue
        t0 = time.monotonic()
        if test.enum is not None:
            run_enum(test, rec, tier, worker, nworkers)
        if test.strategy is not None:
            n = test.quick if tier == "quick" else test.thorough
            n = int(n * float(os.environ.get("VERIF_SCALE", "1")))  # smaller in mutation campaigns
            if not test.single:
                n = max(1, (n + nworkers - 1) // nworkers)
            run_hyp(test, n, derive(seed, prop.ID, test.name, worker), rec, tier)
        rec.stat(test.name)["wall"] = time.monotonic() - t0
        if rec.violations:
            return


def seeded_rng(*parts):
    return random.Random(derive(*parts))
