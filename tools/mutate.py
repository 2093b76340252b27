"""Mutation campaign on scratch copies (development tool; no check uses it).

  mutate.py list
  mutate.py run OUT.jsonl [--par 4] [--jobs 2] [--every K] [--only PATTERN] [--tier quick]
  mutate.py run OUT.jsonl --guard BASE.jsonl   the mutants killed in BASE, each made to act only when a
                                               random condition on a local variable holds

Every mutant is a scratch copy of /repo/torchimage with one small change; the checks relevant to the
file run against it (VERIF_REPO) until one reports a violation.  Survivors are for reading.
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "padding/pad_1d.py": ["P01", "P02", "P03", "P30", "P28", "P37", "P39", "P38", "P40"],
    "padding/generic_pad.py": ["P03", "P01", "P02", "P04", "P10", "P32", "P28", "P29", "P31", "P34", "P38", "P37", "P40"],
    "padding/utils.py": ["P04", "P01", "P03", "P10", "P32"],
    "shapes/conv_like.py": ["P05", "P04", "P11"],
    "utils/ndspec.py": ["P06", "P07", "P32", "P09"],
    "utils/ragged.py": ["P08", "P06", "P07", "P28"],
    "utils/validation.py": ["P32", "P09", "P31", "P19", "P03"],
    "pooling/base.py": ["P09", "P10", "P32", "P28", "P29", "P30", "P31", "P34", "P35", "P37", "P38", "P39", "P40"],
    "pooling/uniform.py": ["P11", "P09", "P10", "P31", "P28"],
    "pooling/gaussian.py": ["P12", "P10", "P14"],
    "pooling/operator.py": ["P27", "P28"],
    "filtering/edges.py": ["P13", "P14", "P32", "P28", "P29", "P30", "P31", "P34", "P37", "P38", "P39"],
    "filtering/sharpen.py": ["P15", "P28", "P29", "P30"],
    "filtering/utils.py": ["P04"],
    "metrics/base.py": ["P16", "P31", "P32"],
    "metrics/mse.py": ["P16"],
    "metrics/psnr.py": ["P16", "P30"],
    "metrics/ssim.py": ["P17", "P18", "P31", "P32", "P28", "P29", "P30", "P34", "P35", "P37", "P38", "P39"],
    "metrics/hdrvdp/pixels_per_degree.py": ["P24"],
    "misc/outer.py": ["P24"], "misc/stats.py": ["P24"],
    "misc/polynomial.py": ["P22", "P30", "P28", "P38", "P39", "P35"], "misc/power.py": ["P23", "P30", "P28", "P38", "P39", "P35"],
    "cfa/bayer_conv/bayer_conv_2d.py": ["P20", "P21", "P30", "P28", "P34", "P37", "P38", "P39"],
    "cfa/bayer_conv/gradient_corrected.py": ["P21"],
    "cfa/utils/bayer_1c_4c.py": ["P19"], "cfa/utils/bayer_to_rgb.py": ["P19"],
    "cfa/utils/rgb_to_bayer.py": ["P19"], "cfa/utils/validation.py": ["P32", "P19"],
    "random.py": ["P25", "P26", "P35", "P38", "P40"],
    "contrib/edge_loss.py": ["P33", "P29"],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
NAMES = {"max": "min", "min": "max", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any", "index": "rindex",
         "rindex": "index", "sum": "mean", "zeros": "ones", "ones": "zeros", "y1": "y2", "y2": "y1", "before": "after",
         "after": "before", "head": "tail", "tail": "head", "edge_pred": "edge_true", "edge_true": "edge_pred",
         "h": "w", "w": "h", "r": "c", "c": "r", "pad_before": "pad_after", "pad_after": "pad_before",
         "old_ndim": "new_ndim", "new_ndim": "old_ndim", "x_lt_0": "x_eq_0", "x_eq_0": "x_lt_0", "length": "chunk_size"}


GUARD = '''

def _vguard(get, k, mark=True):
    """condition number k on the value of a local variable"""
    import os
    try:
        v = get()
        r = _vcond(v, k)
    except Exception:
        return False
    if r and mark and os.environ.get("VERIF_MARK"):
        open(os.environ["VERIF_MARK"], "a").close()
    return r


def _vcond(v, k):
    import numpy as np
    import torch
    if torch.is_tensor(v):
        return (v.ndim >= 4, v.dtype == torch.float32, max(v.shape) > 6, 1 in v.shape, not v.is_contiguous() or v.requires_grad)[k]
    if isinstance(v, bool) or v is None:
        return True
    if isinstance(v, (int, np.integer)):
        return (v % 3 == 2, v > 4, v <= 0, v % 2 == 0, v == 1)[k]
    if isinstance(v, float):
        return (v < 0, v > 1, v != int(v), v == int(v), 0 < v < 1)[k]
    if isinstance(v, str):
        return True
    if isinstance(v, (list, tuple)) and v and all(isinstance(q, (int, np.integer)) for q in v):
        return (len(v) >= 3, list(v) != sorted(v), max(v) > 4, min(v) == 1, len(v) == 1)[k]
    if hasattr(v, "__len__"):
        return (len(v) >= 3, len(v) == 1, isinstance(v, tuple), len(v) == 2, isinstance(v, list))[k]
    return True
'''


def doc(node, parents):
    p = parents.get(node)
    return isinstance(p, ast.Expr) and isinstance(node, ast.Constant) and isinstance(node.value, str)


def mutants(src, guard=None):
    """yields (line, description, new source); guard(line, description) -> seed or None makes it conditional"""
    base = ast.parse(src)
    n = sum(1 for _ in ast.walk(base))
    out = []

    def emit(k, what, edit):
        t = copy.deepcopy(base)
        nodes = list(ast.walk(t))
        node = nodes[k]
        parents = {c: p for p in nodes for c in ast.iter_child_nodes(p)}
        old = ast.unparse(node)[:100]
        line = getattr(node, "lineno", 0)
        g = guard(line, f"{what}: {old}") if guard else None
        if guard:
            if g is None:
                return
            s, fns = node, []
            while s is not None and not isinstance(s, ast.stmt):
                s = parents.get(s)
            q = s
            while q is not None:
                q = parents.get(q)
                if isinstance(q, (ast.FunctionDef, ast.Lambda)):
                    fns.append(q)
            if s is None or not fns or isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                return
            names = sorted({a.arg for f in fns for a in f.args.args + f.args.kwonlyargs} |
                           {m.id for f in fns for m in ast.walk(f) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} - {"self", "cls"})
            names = [m for m in names if m not in ("self", "cls")]
            if not names:
                return
            orig = copy.deepcopy(s)
            lst, pos = next((v, v.index(s)) for _, v in ast.iter_fields(parents[s]) if isinstance(v, list) and s in v)
        if edit(node, parents) is False:
            return
        if guard:
            import random
            rng = random.Random(g)
            nm, kk = rng.choice(names), rng.randrange(5)
            test, txt = f"_vguard(lambda: {nm}, {kk})", f"cond{kk}({nm})"
            if rng.random() < 0.35 and len(names) > 1:  # both of two conditions
                n2, k2 = rng.choice([q for q in names if q != nm]), rng.randrange(5)
                test, txt = f"_vguard(lambda: {n2}, {k2}, False) and " + test, f"cond{k2}({n2}) and " + txt
            lst[pos] = ast.If(test=ast.parse(test, mode="eval").body, body=[lst[pos]], orelse=[orig])
            what = f"if {txt}: " + what
        ast.fix_missing_locations(t)
        try:
            new = ast.unparse(t)
            compile(new, "x", "exec")
        except Exception:
            return
        out.append((line, f"{what}: {old}", new + (GUARD if guard else "")))

    nodes = list(ast.walk(base))
    parents = {c: p for p in nodes for c in ast.iter_child_nodes(p)}
    in_raise = set()
    for x in nodes:
        if isinstance(x, (ast.Raise, ast.JoinedStr)) or (isinstance(x, ast.Assert)):
            for y in ast.walk(x):
                if y is not x and not (isinstance(x, ast.Assert) and y in list(ast.walk(x.test))):
                    in_raise.add(y)

    def replace(node, parents, new):
        p = parents[node]
        for f, v in ast.iter_fields(p):
            if v is node:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for i, e in enumerate(v):
                    if e is node:
                        v[i] = new
                        return

    for k, node in enumerate(nodes):
        if node in in_raise or doc(node, parents):
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                if type(op) in CMP:
                    def e(nd, ps, i=i, op=op):
                        nd.ops[i] = CMP[type(op)]()
                    emit(k, f"cmp->{CMP[type(op)].__name__}", e)
        if isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
            def e(nd, ps):
                nd.op = BIN[type(nd.op)]()
            emit(k, f"op->{BIN[type(node.op)].__name__}", e)
        if isinstance(node, ast.BoolOp):
            def e(nd, ps):
                nd.op = ast.Or() if isinstance(nd.op, ast.And) else ast.And()
            emit(k, "bool swap", e)
            for i in range(len(node.values)):
                def e(nd, ps, i=i):
                    del nd.values[i]
                    if len(nd.values) == 1:
                        replace(nd, ps, nd.values[0])
                emit(k, f"drop operand {i}", e)
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                def e(nd, ps):
                    nd.value = not nd.value
                emit(k, "flip const in " + ast.unparse(parents[node])[:60], e)
            elif isinstance(v, int):
                for d in (1, -1):
                    def e(nd, ps, d=d):
                        nd.value += d
                    emit(k, f"const{d:+d} in " + ast.unparse(parents[node])[:60], e)
            elif isinstance(v, float):
                def e(nd, ps):
                    nd.value = nd.value * 1.001 + 1e-3
                emit(k, "float const in " + ast.unparse(parents[node])[:60], e)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            def e(nd, ps):
                replace(nd, ps, nd.operand)
            emit(k, "drop unary", e)
        if isinstance(node, (ast.If, ast.IfExp)):
            for b in (True, False):
                def e(nd, ps, b=b):
                    nd.test = ast.Constant(b)
                emit(k, f"test->{b} [{ast.unparse(node.test)[:60]}]", e)
        if isinstance(node, (ast.AugAssign, ast.Raise, ast.Assert, ast.Continue)) or (
                isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)) or (
                isinstance(node, ast.Assign) and isinstance(parents.get(node), (ast.If, ast.For, ast.FunctionDef))):
            def e(nd, ps):
                replace(nd, ps, ast.Pass())
            emit(k, "drop stmt", e)
        if isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                def e(nd, ps, i=i):
                    del nd.keywords[i]
                emit(k, f"drop kw {node.keywords[i].arg}", e)
            if len(node.args) >= 2:
                def e(nd, ps):
                    nd.args[0], nd.args[1] = nd.args[1], nd.args[0]
                emit(k, "swap args", e)
            if isinstance(node.func, ast.Attribute) and node.func.attr in (
                    "clone", "detach", "to", "contiguous", "abs", "copy", "tolist", "flip", "clamp", "pow", "reshape"):
                def e(nd, ps):
                    replace(nd, ps, nd.func.value)
                emit(k, f"drop .{node.func.attr}()", e)
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in NAMES:
            def e(nd, ps):
                nd.id = NAMES[nd.id]
            emit(k, f"name->{NAMES[node.id]} in " + ast.unparse(parents[node])[:60], e)
        if isinstance(node, ast.Attribute) and node.attr in NAMES:
            def e(nd, ps):
                nd.attr = NAMES[nd.attr]
            emit(k, f"attr->{NAMES[node.attr]}", e)
        if isinstance(node, ast.Slice):
            for part in ("lower", "upper", "step"):
                if getattr(node, part) is not None:
                    def e(nd, ps, part=part):
                        setattr(nd, part, None)
                    emit(k, f"slice drop {part} in " + ast.unparse(parents[node])[:60], e)
        if isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, (ast.BinOp,)):
            for side in ("left", "right"):
                def e(nd, ps, side=side):
                    nd.value = getattr(nd.value, side)
                emit(k, f"return {side}", e)
    return out


def all_mutants(only=None, base_file=None, seed=0):
    killed = None
    if base_file:
        killed = {}
        for l in open(base_file):
            d = json.loads(l)
            if d["status"] == "killed":
                killed[(d["file"], d["line"], d["what"])] = f"{seed}|{d['file']}|{d['line']}|{d['what']}"
    for f in MAP:
        if only and only not in f:
            continue
        src = open(os.path.join(REPO, "torchimage", f)).read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for line, what, new in mutants(src, (lambda l, w: killed.get((f, l, w))) if killed is not None else None):
            if new in seen:
                continue
            seen.add(new)
            yield f, line, what, new


def run_one(m, jobs, tier, seed):
    f, line, what, new = m
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "torchimage"), os.path.join(d, "torchimage"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "torchimage", f), "w") as h:
            h.write(new)
        # cheap: a tree that does not import is no mutant
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import torchimage, torchimage.metrics, torchimage.cfa, torchimage.filtering, torchimage.contrib.edge_loss, torchimage.random, torchimage.misc"],
                           cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True)
        if p.returncode:
            return {"status": "noimport"}
        res = {}
        mark = os.path.join(d, "mark")
        env = dict(os.environ, VERIF_REPO=d, VERIF_MARK=mark, VERIF_SEED=str(seed), VERIF_FAST="1", VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.3"))
        for n, pid in enumerate(MAP[f]):
            if n >= 3 and "_vguard" in new and not os.path.exists(mark):
                return {"status": "survived", "res": res, "reached": False}
            hd = os.path.join(d, "v")  # private copy: evidence and replays are written next to check.py
            if not os.path.isdir(hd):
                os.mkdir(hd)
                for n in ("check.py", "lib", "props", "properties.jsonl", "known_findings.txt"):
                    src = os.path.join(HERE, n)
                    (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(hd, n))
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-B", os.path.join(hd, "check.py"), pid, "--tier", tier,
                                    "--jobs", str(jobs)], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res[pid] = "timeout"
                continue
            res[pid] = p.returncode
            if p.returncode == 1:
                return {"status": "killed", "by": pid, "res": res}
            if p.returncode == 2:
                res[pid] = "harness: " + p.stderr[-400:]
        return {"status": "survived", "res": res, "reached": os.path.exists(mark)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--par", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--only")
    ap.add_argument("--guard")
    ap.add_argument("--gseed", type=int, default=0)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    ms = list(all_mutants(a.only, a.guard, a.gseed))
    if a.cmd == "list":
        from collections import Counter
        c = Counter(m[0] for m in ms)
        for k, v in c.items():
            print(v, k)
        print(len(ms))
        return
    if a.guard:  # a sample over all files first
        import random
        random.Random(a.gseed).shuffle(ms)
    ms = ms[a.offset::a.every]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    it = iter([m for m in ms if (m[0], m[1], m[2]) not in done])
    lock = threading.Lock()
    outf = open(a.out, "a")

    def work():
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            r = run_one(m, a.jobs, a.tier, a.seed)
            r.update(file=m[0], line=m[1], what=m[2])
            with lock:
                outf.write(json.dumps(r) + "\n")
                outf.flush()
    ts = [threading.Thread(target=work) for _ in range(a.par)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
