"""Seeded search: scenario generation, fork-per-run execution, minimisation, replay files, evidence.

Every simulated run happens in a process forked from a zygote which has the code under test imported but has never
executed it. A run is a pure function of (code under test, scenario); the scenario is plain JSON and derives from
(VERIF_SEED, property, index) alone.
"""
import collections
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import boot, world as wd

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
RUN_LIMIT_S = 150          # real seconds a single simulated run may take (normal: 0.05 .. 3)


class RunTimeout(BaseException):
    pass


class Skip(Exception):
    """The scenario does not exercise the property (counted, not hidden)."""


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def sha(x):
    if not isinstance(x, (bytes, str)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
    return hashlib.sha256(x).hexdigest()


# -- forking --------------------------------------------------------------------------------------------------------
def _write_all(fd, data):
    while data:
        n = os.write(fd, data[:1 << 20])
        data = data[n:]


def _read_all(fd):
    out = []
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            return b"".join(out)
        out.append(b)


def in_fork(fn, *args, limit=RUN_LIMIT_S):
    """Runs fn(*args) in a forked child; returns ("ok", value) | ("error", text) | ("timeout", text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)

            def on_alarm(*a):
                raise RunTimeout("".join(traceback.format_stack()[-12:]))
            signal.signal(signal.SIGALRM, on_alarm)
            signal.setitimer(signal.ITIMER_REAL, limit, 5.0)
            try:
                res = ("ok", fn(*args))
            except RunTimeout as e:
                res = ("timeout", str(e))
            except BaseException as e:
                res = ("error", f"{e!r}\n{traceback.format_exc()[-3000:]}")
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                data = pickle.dumps(res)
            except Exception as e:
                data = pickle.dumps(("error", f"result cannot be transported: {e!r}"))
            _write_all(w, data)
            os.close(w)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    deadline = wd.REAL_MONO() + limit + 60
    chunks = []
    dead = False
    while True:
        rest = deadline - wd.REAL_MONO()
        if rest <= 0:
            dead = True
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], min(rest, 5.0))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if dead:
        return ("timeout", "killed: did not react to its time limit")
    if not data:
        return ("error", f"run died with status {st}")
    return pickle.loads(data)


# -- baselines: results of fault-free runs, computed in a pristine process and shared between runs ---------------------
BASE = {}
_new_base = {}


def pristine(key, fn, *args):
    """Value of fn(*args) computed in a process in which the code under test has not run yet. Must be called before the
    run executes the code under test itself."""
    if key in BASE:
        return BASE[key]
    st, v = in_fork(fn, *args)
    if st != "ok":
        raise wd.HarnessError(f"baseline {key!r}: {st}: {v}")
    BASE[key] = v
    _new_base[key] = v
    return v


# -- one run ------------------------------------------------------------------------------------------------------------
class Ctx:
    """What a property's run() reports besides its verdict."""

    def __init__(self):
        self.fired = collections.Counter()
        self.sim_s = 0.0
        self.steps = 0
        self.trace = hashlib.sha256()
        self.shape = None
        self.notes = {}

    def saw(self, o):
        """Account for a server-check outcome."""
        self.fired.update(o.fired)
        self.sim_s += o.now
        self.steps += o.conns
        self.note(o.digest or "", o.tree, o.mat, o.errtext)

    def note(self, *what):
        for x in what:
            self.trace.update(repr(x).encode("utf-8", "surrogatepass"))


def viol(key, what, **kw):
    d = {"key": key, "what": what}
    d.update(kw)
    return d


def _run_child(mod, scn):
    random.seed(12345)
    ctx = Ctx()
    try:
        v = mod.run(scn, ctx)
        skipped = False
    except Skip:
        v, skipped = None, True
    return {"v": v, "skip": skipped, "fired": dict(ctx.fired), "sim_s": ctx.sim_s, "steps": ctx.steps,
            "trace": ctx.trace.hexdigest(), "shape": ctx.shape, "base": dict(_new_base)}


def run_one(mod, scn):
    """Executes a scenario in a fresh fork. Returns the child's dict, or raises HarnessError."""
    _new_base.clear()
    st, r = in_fork(_run_child, mod, scn)
    if st == "timeout":
        return {"v": viol("no-progress", f"the run did not end within {RUN_LIMIT_S} real seconds (normal: about one)",
                          stack=r[-1500:]),
                "skip": False, "fired": {}, "sim_s": 0.0, "steps": 0, "trace": "timeout", "shape": None, "base": {}}
    if st != "ok":
        raise wd.HarnessError(r)
    BASE.update(r.pop("base"))
    return r


def scenario(mod, seed, i, tier):
    fixed = mod.fixed() if hasattr(mod, "fixed") else []
    if i < len(fixed):
        return fixed[i]
    rng = random.Random(f"{seed}:{mod.ID}:{i}")
    return mod.gen(rng, i, tier)


def load_mod(pid):
    mod = importlib.import_module(f"props.{pid.lower()}")
    boot.load(getattr(mod, "before_load", None))
    return mod


# -- known findings --------------------------------------------------------------------------------------------------------
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    for e in json.load(open(p))["findings"]:
        if e["property"] == pid:
            out.append(e)
    return out


def is_known(v, known):
    for e in known:
        if v["key"] == e["key"]:
            return e
    return None


# -- minimisation ------------------------------------------------------------------------------------------------------------
def minimise(mod, scn, v, budget_s=60.0, log=None):
    """Greedy reduction over the module's candidate simplifications; every accepted step fails with the same key."""
    t0 = wd.REAL_MONO()
    tried = 0
    if not hasattr(mod, "shrink"):
        return scn, v, 0
    if hasattr(mod, "explicit"):
        cand = mod.explicit(scn, v)
        if cand is not None:
            tried += 1
            r = run_one(mod, cand)
            if r["v"] is not None and r["v"]["key"] == v["key"]:
                scn, v = cand, r["v"]
    again = True
    while again and wd.REAL_MONO() - t0 < budget_s:
        again = False
        for cand in mod.shrink(scn):
            if wd.REAL_MONO() - t0 > budget_s:
                break
            if cand == scn:
                continue
            tried += 1
            try:
                r = run_one(mod, cand)
            except wd.HarnessError:
                continue
            if r["v"] is not None and r["v"]["key"] == v["key"]:
                scn, v, again = cand, r["v"], True
                break
    return scn, v, tried


def ddmin_candidates(lst):
    """Candidate sublists, big deletions first."""
    n = len(lst)
    size = n
    while size >= 1:
        for s in range(0, n, size):
            c = lst[:s] + lst[s + size:]
            if len(c) < n:
                yield c
        size //= 2


# -- the check -----------------------------------------------------------------------------------------------------------------
def _worker(mod, seed, tier, total, w, nw, wfd, stop_at, known):
    gc.collect()
    gc.freeze()
    out = os.fdopen(wfd, "wb")

    def send(x):
        b = pickle.dumps(x)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()
    i = w
    while i < total:
        if wd.REAL_MONO() > stop_at:
            break
        try:
            scn = scenario(mod, seed, i, tier)
            r = run_one(mod, scn)
        except wd.HarnessError as e:
            send(("harness", i, str(e)[-3000:]))
            break
        except Exception as e:
            send(("harness", i, traceback.format_exc()[-3000:]))
            break
        send(("run", i, r, scn if (r["v"] or i < 40) else None))
        if r["v"] is not None and not is_known(r["v"], known):
            break
        i += nw
    send(("done", w, None))
    out.close()


def check(pid, tier):
    t0 = wd.REAL_MONO()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load_mod(pid)
    known = known_findings(pid)
    total = int(os.environ.get("SIM_RUNS") or mod.RUNS[tier])
    nw = int(os.environ.get("SIM_WORKERS") or min(8, os.cpu_count() or 1))
    wall = {"quick": 300, "thorough": 820}[tier]
    stop_at = t0 + float(os.environ.get("SIM_WALL") or wall)
    pipes = []
    for w in range(nw):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid_ = os.fork()
        if pid_ == 0:
            code = 1
            try:
                os.close(r)
                for p, _ in pipes:
                    os.close(p)
                _worker(mod, seed, tier, total, w, nw, wfd, stop_at, known)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        pipes.append((r, pid_))
    bufs = {r: b"" for r, _ in pipes}
    live = set(bufs)
    runs, viols, harness, done = {}, {}, [], 0
    samples = []
    seen_known = {}
    while live:
        for r in select.select(list(live), [], [], 10.0)[0]:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 4:
                n = struct.unpack("<I", bufs[r][:4])[0]
                if len(bufs[r]) < 4 + n:
                    break
                msg = pickle.loads(bufs[r][4:4 + n])
                bufs[r] = bufs[r][4 + n:]
                if msg[0] == "run":
                    _, i, res, scn = msg
                    runs[i] = res
                    if scn is not None and len(samples) < 3 and not res["skip"]:
                        samples.append({"index": i, "scenario": clip(scn), "trace": res["trace"][:16]})
                    if res["v"] is not None:
                        e = is_known(res["v"], known)
                        if e:
                            seen_known.setdefault(e["key"], (e, i, res["v"]))
                        else:
                            viols[i] = (scn, res["v"])
                elif msg[0] == "harness":
                    harness.append(msg[1:])
                elif msg[0] == "done":
                    done += 1
    for _, p in pipes:
        os.waitpid(p, 0)
    for e, i, v in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    rc = 0
    replay = None
    # determinism: repeat some runs here (other process, other baseline cache) and compare traces
    det = {"repeated": 0, "different": 0}
    if not viols and not harness and not getattr(mod, "NO_REPEAT", False):
        reps = int(os.environ.get("SIM_REPEAT") or 10)
        pick = sorted(runs)[:: max(1, len(runs) // reps)][:reps]
        for i in pick:
            if wd.REAL_MONO() - t0 > wall + 20:
                break
            try:
                r = run_one(mod, scenario(mod, seed, i, tier))
            except wd.HarnessError as e:
                harness.append((i, "on repetition: " + str(e)[-2000:]))
                continue
            det["repeated"] += 1
            if r["trace"] != runs[i]["trace"]:
                det["different"] += 1
                det.setdefault("indexes", []).append(i)
    if viols:
        i = min(viols)
        scn, v = viols[i]
        mscn, mv, tried = minimise(mod, scn, v, budget_s=60.0 if tier == "quick" else 120.0)
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{pid}-{seed}-{i}.json")
        mv.pop("schedule", None)
        rr = run_one(mod, mscn)
        with open(replay, "w") as f:
            json.dump({"property": pid, "seed": seed, "index": i, "tier": tier, "violation": mv, "scenario": mscn,
                       "original_scenario": clip(scn, 20000), "minimisation_runs": tried, "trace": rr["trace"]}, f, indent=1)
        p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "replay.py"), replay], capture_output=True, text=True,
                           env={**os.environ, "SIM_BOOTED": ""})
        print(f"{pid}: run {i} (seed {seed}): {mv['what']}")
        print(f"  minimised after {tried} further runs; scenario: {jdump(mscn)[:1500]}")
        print(f"  replay in a fresh process {'reproduces it exactly' if p.returncode == 1 else 'DIFFERS: ' + p.stdout[-500:]}")
        print(f"VIOLATION property={pid} replay={replay}")
        rc = 1
    elif harness:
        i, text = sorted(harness)[0]
        print(f"{pid}: harness error in run {i} (seed {seed}): {text}")
        rc = 2
    wall_s = wd.REAL_MONO() - t0
    write_evidence(mod, tier, seed, runs, samples, det, wall_s, viols, seen_known, total, nw)
    if det["different"]:
        print(f"{pid}: not repeatable: runs {det['indexes']}")
    n = len(runs)
    print(f"{pid}: {n} simulated runs ({tier}, seed {seed}) in {wall_s:.1f} s, {len(viols)} violating, "
          f"{sum(1 for r in runs.values() if r['skip'])} skipped; {det['repeated']} repeated, {det['different']} different")
    return rc


def clip(x, n=1500):
    s = jdump(x)
    return x if len(s) <= n else {"clipped": s[:n]}


def write_evidence(mod, tier, seed, runs, samples, det, wall_s, viols, seen_known, total, nw):
    fired = collections.Counter()
    sim_s, steps = 0.0, 0
    for r in runs.values():
        fired.update(r["fired"])
        sim_s += r["sim_s"]
        steps += r["steps"]
    eff = [r for r in runs.values() if not r["skip"]]
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(runs),
            "distinct_nontrivial": len({r["trace"] for r in eff}),
            "rule": mod.RULE,
            "samples": samples or [{"none": True}],
            "planned_runs": total,
            "runs_per_hour": round(len(runs) / max(wall_s, 0.01) * 3600),
            "simulated_seconds": round(sim_s, 3),
            "simulated_steps": steps,
            "distinct_shapes": len({r["shape"] for r in eff if r["shape"] is not None}),
            "faults_injected": dict(sorted(fired.items())),
            "determinism": det,
            "workers": nw,
            "components_real": mod.REAL,
            "components_stubbed": mod.STUB,
            "known_findings_observed": sorted(seen_known),
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall_s, 2),
        "violations": len(viols),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{mod.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{mod.ID}.json"))


def replay(path):
    d = json.load(open(path))
    mod = load_mod(d["property"])
    r = run_one(mod, d["scenario"])
    v = r["v"]
    if v is None:
        print(f"{d['property']}: no violation on replay")
        return 0
    same = r["trace"] == d.get("trace")
    print(f"{d['property']}: {v['what']}")
    if "detail" in v:
        print(v["detail"])
    print(f"trace {'identical' if same else 'differs'}; key {v['key']}")
    return 1 if same and v["key"] == d["violation"]["key"] else 3
