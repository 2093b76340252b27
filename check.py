"""Entry point of every check.

  check.py P01 [--tier quick|thorough] [--jobs N]
  check.py replay FILE

Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line),
2 the harness itself failed (never printed as a violation).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
FAST = os.environ.get("VERIF_FAST") == "1"  # mutation campaigns: no shrinking, no replay confirmation


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


# ------------------------------------------------------------------ worker side
def worker_main(args):
    import resource
    lim = 10 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from lib import boot
    boot.boot(args.scratch)
    from lib import core
    prop = load_prop(args.pid)

    def flush(rec, error=None):
        out = {"tests": {}, "violations": rec.violations, "error": error}
        for name, st in rec.tests.items():
            out["tests"][name] = {"evaluations": st["evaluations"], "labels": st["labels"], "samples": st["samples"],
                                  "nontrivial": sorted(st["nontrivial"]), "wall": st.get("wall", 0.0)}
        tmp = args.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f)
        os.replace(tmp, args.out)

    rec = core.Recorder({"flush": flush}, args.out + ".box")
    if args.case is not None:  # replay of one case
        with open(args.case) as f:
            spec = json.load(f)
        test = [t for t in prop.TESTS if t.name == spec["test"]][0]
        msg = rec.execute(test, spec["case"])
        if msg is not None:
            rec.violations.append({"test": test.name, "case": spec["case"], "kind": "case", "message": msg})
        flush(rec)
        return 0
    error = None
    try:
        core.run_worker(prop, args.tier, args.seed, args.worker, args.jobs, rec)
    except Exception:
        import traceback
        error = traceback.format_exc()
    flush(rec, error)
    return 0


# ------------------------------------------------------------------ parent side
def spawn(scratch, pid, tier, seed, worker, jobs, tag="w", case=None):
    d = os.path.join(scratch, f"{tag}{worker}")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "out.json")
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    cmd = [sys.executable, "-B", os.path.join(HERE, "check.py"), "_worker", pid, "--tier", tier, "--seed", str(seed),
           "--worker", str(worker), "--jobs", str(jobs), "--out", out, "--scratch", d]
    if case is not None:
        cmd += ["--case", case]
    log = open(os.path.join(d, "log"), "wb")
    p = subprocess.Popen(cmd, env=env, cwd=d, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    return {"p": p, "out": out, "dir": d, "worker": worker}


def kill(w):
    try:
        os.killpg(w["p"].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    w["p"].wait()


def read_box(w):
    try:
        with open(w["out"] + ".box", "rb") as f:
            n = struct.unpack("<I", f.read(4))[0]
            if n == 0:
                return None
            name, text = f.read(n).decode().split("\n", 1)
            return name, json.loads(text)
    except Exception:
        return None


def tail(w, n=3000):
    try:
        with open(os.path.join(w["dir"], "log"), "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


CRASH = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT)


def collect(w):
    """-> (result dict or None, crash violation or None, error text or None)"""
    rc = w["p"].returncode
    if os.path.exists(w["out"]):
        with open(w["out"]) as f:
            r = json.load(f)
        return r, None, r.get("error")
    if rc is not None and rc < 0 and -rc in [int(s) for s in CRASH]:
        box = read_box(w)
        if box is not None:
            return None, {"test": box[0], "case": box[1], "kind": "crash",
                          "message": f"the process died with signal {-rc} while running this case"}, None
    return None, None, f"worker {w['worker']} ended with status {rc} and no result\n" + tail(w)


def run_replay_file(path, scratch, tag):
    """-> (violated, message, error)"""
    with open(path) as f:
        spec = json.load(f)
    if spec.get("kind") == "campaign":
        w = spawn(scratch, spec["property"], spec["tier"], spec["seed"], spec["worker"], spec["jobs"], tag=tag)
    else:
        w = spawn(scratch, spec["property"], "quick", 0, 0, 1, tag=tag, case=os.path.abspath(path))
    try:
        w["p"].wait(timeout=880)
    except subprocess.TimeoutExpired:
        kill(w)
        return False, "", "replay timed out"
    r, crash, err = collect(w)
    if crash:
        return True, crash["message"], None
    if err:
        return False, "", err
    if r["violations"]:
        return True, r["violations"][0]["message"], None
    return False, "", None


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                head, _, rest = line[len("known:"):].strip().partition(" ")
                if head == "property=" + pid:
                    out.append(rest)
    return out


def check_main(args):
    t0 = time.monotonic()
    pid, tier = args.pid, args.tier
    seed = args.seed
    jobs = args.jobs
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    replays = os.path.join(HERE, "replays")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    workers = []
    try:
        workers = [spawn(scratch, pid, tier, seed, i, jobs) for i in range(jobs)]
        budget = 780 if tier == "quick" else 6 * 3600
        first_violation = None
        grace = 0 if FAST else 60  # lets the other workers find (smaller) failures too
        while True:
            alive = [w for w in workers if w["p"].poll() is None]
            if not alive:
                break
            now = time.monotonic()
            if first_violation is None:
                for w in workers:
                    if w["p"].poll() is not None and os.path.exists(w["out"]):
                        if '"violations": []' not in open(w["out"]).read():
                            first_violation = now
            if now - t0 > budget or (first_violation is not None and now - first_violation > grace):
                for w in alive:
                    w["killed"] = True
                    kill(w)
                break
            time.sleep(0.05)

        tests, violations, errors = {}, [], []
        for w in workers:
            w["p"].wait()
            r, crash, err = collect(w)
            if w.get("killed") and r is None:
                if first_violation is None:
                    errors.append(f"worker {w['worker']} exceeded the time budget")
                continue
            if crash:
                crash["worker"] = w["worker"]
                violations.append(crash)
            if err:
                errors.append(err)
            if r:
                for v in r["violations"]:
                    v["worker"] = w["worker"]
                    violations.append(v)
                for name, st in r["tests"].items():
                    t = tests.setdefault(name, {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "wall": 0.0})
                    t["evaluations"] += st["evaluations"]
                    t["nontrivial"].update(st["nontrivial"])
                    t["samples"] += st["samples"]
                    t["wall"] = max(t["wall"], st["wall"])
                    for k, n in st["labels"].items():
                        t["labels"][k] = t["labels"].get(k, 0) + n

        lines = []
        violations.sort(key=lambda v: (len(json.dumps(v["case"])), v["worker"]))
        seen = set()
        for v in violations:
            if v["test"] in seen:
                continue
            seen.add(v["test"])
            path = os.path.join(replays, f"{pid}-{v['test']}-{seed}.json")
            spec = {"property": pid, "test": v["test"], "kind": v["kind"], "case": v["case"], "message": v["message"]}
            with open(path, "w") as f:
                json.dump(spec, f, indent=1, sort_keys=True)
            if v["kind"] != "nontermination" and not FAST:
                again, _, _ = run_replay_file(path, scratch, "r%d_" % len(seen))
                if not again:  # depends on earlier cases of the same process: replay the whole campaign
                    spec.update(kind="campaign", tier=tier, seed=seed, worker=v["worker"], jobs=jobs)
                    with open(path, "w") as f:
                        json.dump(spec, f, indent=1, sort_keys=True)
            lines.append((f"VIOLATION property={pid} replay={path}", v))

        prop_text = ""
        try:
            for l in open(os.path.join(HERE, "properties.jsonl")):
                d = json.loads(l)
                if d["id"] == pid:
                    prop_text = d["title"]
        except OSError:
            pass
        meta = read_meta(pid)
        samples = []
        for name in sorted(tests):
            for s in tests[name]["samples"][:3]:
                samples.append({"test": name, "case": s})
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(t["evaluations"] for t in tests.values()),
                "distinct_nontrivial": sum(len(t["nontrivial"]) for t in tests.values()),
                "rule": meta.get("rule", ""),
                "samples": samples,
                "tests": {n: {"evaluations": t["evaluations"], "distinct_nontrivial": len(t["nontrivial"]),
                              "labels": dict(sorted(t["labels"].items())), "wall_s": round(t["wall"], 2)}
                          for n, t in sorted(tests.items())},
                "workers": jobs,
                "title": prop_text,
            },
            "assumptions": meta.get("assumptions", []),
            "wall_s": round(time.monotonic() - t0, 2),
            "violations": len(lines),
        }
        if errors:
            evidence["coverage"]["errors"] = errors
        path = os.path.join(HERE, "evidence", pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)

        for k in known_findings(pid):
            print(f"KNOWN-FINDING: property={pid} {k}")
        for line, v in lines:
            print(f"{v['test']}: {v['message']}")
            print(json.dumps(v["case"])[:1500])
            print(line)
        print(f"{pid} {tier} seed={seed}: {evidence['coverage']['evaluations']} cases, "
              f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
              f"{len(lines)} violations, {evidence['wall_s']} s")
        sys.stdout.flush()
        if lines:
            return 1
        if errors:
            sys.stderr.write("HARNESS ERROR\n" + errors[0] + f"\n({len(errors)} workers failed)\n")
            return 2
        return 0
    finally:
        for w in workers:
            if w["p"].poll() is None:
                kill(w)
        shutil.rmtree(scratch, ignore_errors=True)


def read_meta(pid):
    """RULE and ASSUMPTIONS of the property module, without importing torch."""
    import ast
    out = {}
    try:
        tree = ast.parse(open(os.path.join(HERE, "props", pid.lower() + ".py")).read())
        for node in tree.body:
            if isinstance(node, ast.Assign) and node.targets[0].id in ("RULE", "ASSUMPTIONS"):
                out[node.targets[0].id.lower()] = ast.literal_eval(node.value)
    except Exception:
        pass
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "replay":
        scratch = tempfile.mkdtemp(prefix="verif_replay_")
        try:
            with open(sys.argv[2]) as f:
                pid = json.load(f)["property"]
            bad, msg, err = run_replay_file(sys.argv[2], scratch, "r")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if err:
            sys.stderr.write(err + "\n")
            return 2
        if bad:
            print(msg)
            print(f"VIOLATION property={pid} replay={os.path.abspath(sys.argv[2])}")
            return 1
        print("the property holds on this replay")
        return 0
    is_worker = len(sys.argv) > 1 and sys.argv[1] == "_worker"
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    if is_worker:
        ap.add_argument("--worker", type=int, default=0)
        ap.add_argument("--out")
        ap.add_argument("--scratch")
        ap.add_argument("--case")
        return worker_main(ap.parse_args(sys.argv[2:]))
    return check_main(ap.parse_args())


if __name__ == "__main__":
    sys.exit(main())
