#!/usr/bin/env python3
"""Development aid (no check uses it): random single-point mutants of the code under test which pass the existing tests are run
against the checks with reduced budgets. Survivors are printed for inspection; whether one breaks a property is for the reader.

usage: mutate.py SEED COUNT WORKERS [FILE...]     (scratch copies below /tmp/mut, removed afterwards)
"""
import ast
import copy
import difflib
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, V = "aas_test_engines/", "aas_test_engines/test_cases/v3_0/"
I = V + "interfaces/"
FILES = {B + "http.py": "C06 C01 C02 C03 C10", B + "result.py": "C08 C03 C07 C10", B + "config.py": "C05 C13", B + "opc.py": "C11",
         B + "file.py": "C12 C11 C13 C10", B + "__main__.py": "C13 C06", B + "data_types.py": "C12 C01", B + "reflect.py": "C12 C02 C01",
         V + "parse.py": "C12 C02 C01", V + "adapter.py": "C12 C02 C01", V + "api.py": "C01 C02 C07 C04 C05 C03", V + "generate.py": "C02 C01 C07",
         V + "__init__.py": "C12 C11", V + "parse_submodel.py": "C12", V + "submodel_templates.py": "C12", V + "model.py": "C12 C01 C02"}
for f in ("aas", "aas_repo", "description", "serialization", "shared", "submodel", "submodel_repo"):
    FILES[I + f + ".py"] = "C02 C01 C07"
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def spots(tree):
    """[(description, function which mutates the node found at the same position of a copy)]"""
    out = []
    for i, n in enumerate(ast.walk(tree)):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            out.append((i, ln, "compare"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, ln, "boolop"))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out += [(i, ln, "true"), (i, ln, "false")]
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, ln, "flip"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out.append((i, ln, "inc"))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((i, ln, "loop"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((i, ln, "drop"))
        elif isinstance(n, (ast.Raise, ast.AugAssign)):
            out.append((i, ln, "drop"))
        elif isinstance(n, ast.Call) and n.keywords:
            out.append((i, ln, "kw"))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append((i, ln, "ret"))
        elif isinstance(n, ast.Try) and n.handlers:
            out.append((i, ln, "handler"))
        elif isinstance(n, ast.Slice):
            out.append((i, ln, "slice"))
    return out


def mutate(src, spot, rng):
    i, ln, kind = spot
    tree = ast.parse(src)
    n = list(ast.walk(tree))[i]
    if kind == "compare":
        t = type(n.ops[0])
        if t not in SWAP:
            return None
        n.ops[0] = SWAP[t]()
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind in ("true", "false"):
        n.test = ast.Constant(kind == "true")
        if isinstance(n, ast.While) and kind == "true":
            return None
    elif kind == "flip":
        n.value = not n.value
    elif kind == "inc":
        n.value += rng.choice([1, -1])
    elif kind == "slice":
        if n.upper is not None:
            n.upper = None
        elif n.lower is not None:
            n.lower = None
        else:
            return None
    elif kind == "kw":
        n.keywords.pop(rng.randrange(len(n.keywords)))
    elif kind == "ret":
        n.value = ast.Constant(None)
    elif kind == "handler":
        n.handlers[rng.randrange(len(n.handlers))].type = ast.Name("ZeroDivisionError", ast.Load())
    else:
        for p in ast.walk(tree):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    k = b.index(n)
                    b[k] = ast.Pass() if kind == "drop" else ast.Break() if isinstance(n, ast.Continue) else ast.Continue()
    try:
        return ast.unparse(ast.fix_missing_locations(tree)) + "\n"
    except Exception:
        return None


def job(a):
    k, f, spot, seed = a
    src = open(f"{REPO}/{f}").read()
    new = mutate(src, spot, random.Random(seed))
    plain = ast.unparse(ast.parse(src)) + "\n"
    if new is None or new == plain:
        return None
    w = f"/tmp/mut/w{k}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        subprocess.check_call(["cp", "-a", REPO, w + "/repo"])
        os.makedirs(w + "/verif")
        for x in ("sim", "props", "check.py", "replay.py", "known_findings.json", "MANIFEST.json"):
            subprocess.check_call(["cp", "-a", f"{VERIF}/{x}", w + "/verif/"])
        open(f"{w}/repo/{f}", "w").write(new)
        d = "".join(difflib.unified_diff(plain.splitlines(1), new.splitlines(1), n=2))
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "--deselect", "test/v3_0/test_model.py::TestSubmodelElement::test_iterate", "-p", "no:cacheprovider",
                                "--timeout=60", "test"], cwd=w + "/repo", capture_output=True, text=True, env=env, timeout=200)
        except subprocess.TimeoutExpired:
            return (f, spot, "tests", d)
        if t.returncode:
            return (f, spot, "tests", d)
        env.update(VERIF_REPO=w + "/repo", SIM_WORKERS="1", SIM_REPEAT="1", SIM_WALL="250", VERIF_SEED="1")
        res = []
        for c in FILES[f].split():
            sys.path.insert(0, VERIF)
            runs = {"C01": 120, "C02": 1800, "C03": 300, "C04": 200, "C05": 250, "C06": 250, "C07": 250, "C08": 4000, "C10": 200, "C11": 5000, "C12": 2500,
                    "C13": 800}[c]
            env["SIM_RUNS"] = str(runs)
            try:
                r = subprocess.run([sys.executable, "check.py", c, "quick"], cwd=w + "/verif", capture_output=True, text=True, env=env, timeout=700)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            res.append(f"{c}={rc}")
            if rc == 1:
                return (f, spot, "killed by " + c, d)
        return (f, spot, "SURVIVED " + " ".join(res), d)
    except Exception as e:
        return (f, spot, f"tool: {e!r}", "")
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    seed, count, workers = map(int, sys.argv[1:4])
    rng = random.Random(seed)
    jobs = []
    for f in sys.argv[4:] or FILES:
        jobs += [(f, s) for s in spots(ast.parse(open(f"{REPO}/{f}").read()))]
    rng.shuffle(jobs)
    jobs = [(k, f, s, rng.random()) for k, (f, s) in enumerate(jobs[:count])]
    stat = {}
    with multiprocessing.Pool(workers) as pool:
        for r in pool.imap_unordered(job, jobs):
            if r is None:
                continue
            f, spot, what, d = r
            k = what.split()[0]
            stat[k] = stat.get(k, 0) + 1
            if k not in ("tests", "killed"):
                print(f"==== {f}:{spot[1]} {spot[2]}: {what}\n{d}", flush=True)
            else:
                print(f"     {f}:{spot[1]} {spot[2]}: {what}", flush=True)
    print(json.dumps(stat))
