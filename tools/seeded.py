"""Runs checks against the planted bugs on scratch copies (development tool; no check uses it).

  seeded.py [--all] [--jobs N] [--tier T] [--seed S] [ID-SUBSTRING ...]
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--all", action="store_true", help="run every check, not only the one of the bug's property")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    a = ap.parse_args()
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        if a.ids and not any(s in b for s in a.ids):
            continue
        src = os.path.join(HERE, "seeded", b)
        pid = json.load(open(os.path.join(src, "meta.json")))["property"]
        d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
            subprocess.check_call(["git", "-C", d + "/r", "apply", src + "/patch.diff"])
            os.mkdir(d + "/v")
            for n in ("check.py", "lib", "props", "properties.jsonl", "known_findings.txt"):
                s = os.path.join(HERE, n)
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, "v", n))
            pids = [pid]
            if a.all:
                pids += [p for p in ("P%02d" % i for i in range(1, 100))
                         if p != pid and os.path.exists(f"{HERE}/props/{p.lower()}.py")]
            caught = []
            for p in pids:
                t = time.time()
                env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_SEED=a.seed)
                if a.all:
                    env["VERIF_FAST"] = "1"
                r = subprocess.run(["/opt/venv/bin/python", "-B", d + "/v/check.py", p, "--tier", a.tier, "--jobs", str(a.jobs)],
                                   env=env, capture_output=True, text=True)
                if r.returncode == 1:
                    caught.append(p)
                if not a.all:
                    print(b, p, "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode} {r.stderr[-300:]}",
                          "%.0fs" % (time.time() - t), (r.stdout.splitlines() or [""])[0][:140], flush=True)
                elif r.returncode not in (0, 1):
                    print(b, p, "rc", r.returncode, r.stderr[-200:])
            if a.all:
                print(b, "own" if pid in caught else "OWN MISSED", caught, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
