import copy
import gc
import io
import os
import re
import subprocess
import sys

from .common import *
from . import c09
from sim import boot, docs

ID = "C10"
RUNS = {"quick": 800, "thorough": 60000}
RULE = ("seeded histories of 2..7 checks (server checks of any operation or whole profile, JSON, XML and AASX files, parsed documents of any "
        "model type) in one process, where each may meet network or read faults, an exception or interrupt at an arbitrary executed line "
        "(of the engine or of the libraries below it) or connection, and may reuse the client, configuration and document objects of earlier "
        "ones; every undisturbed check is compared with the same check in a fresh process; some histories repeat the last check in another "
        "process with other hash seed, time zone, locale, clock and random state; distinct = different trace hash")
STUB = STUB + ["asynchronous interrupts (raised by the tracer at the chosen line)"]
ASSUME = ASSUME + ["interrupts are delivered at line granularity and not while the import system or a thread lock of the standard library runs"]

MODELS = ["Environment", "AssetAdministrationShell", "Submodel", "ConceptDescription", "Property", "SubmodelElementCollection"]


class Boom(Exception):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "MemoryError": MemoryError, "RecursionError": RecursionError,
       "Boom": Boom, "OSError": OSError}


def gen_task(rng, i, disturb):
    r = rng.random()
    if r < 0.4:
        p, key = pool_pick(rng, i)
        t = {"t": "server", "profile": p, "ds": key, "op": rng.choice(OPERATIONS[p]) if rng.random() < 0.97 else None, "faults": [],
             "raise": None, "tr": {"extra_headers": True} if rng.random() < 0.4 else None, "ckw": c09.gen_ckw(rng)}
        if rng.random() < 0.1:
            t["dry"] = True
        if rng.random() < 0.3:
            t["client"] = True
        if disturb and rng.random() < 0.4:
            t["faults"] = [[rng.randrange(10**6), gen_fault(rng, FAIL + ANSWER)] for _ in range(rng.choice([1, 1, 2, 5]))]
        elif disturb and rng.random() < 0.2:
            t["dead"] = [gen_fault(rng, wd.HARD_FAULTS), rng.choice([0, 1, 1, 1, 3, 20])]
            if rng.random() < 0.6:
                t["op"] = None
        elif disturb and rng.random() < 0.4:
            t["raise"] = rng.randrange(10**6)
            t["exc"] = rng.choice(list(EXC))
    elif r < 0.75:
        t = {"t": rng.choice(["json", "xml", "aasx"]), "doc": rng.choice(docs.KEYS), "damage": rng.randrange(10**6) if rng.random() < 0.4 else None}
        if t["t"] != "aasx" and rng.random() < 0.15:
            t["doc"], t["damage"] = [rng.randrange(20000), 0, False, False, None, ["values"]], None
        if t["t"] == "aasx" and rng.random() < 0.5:
            t["pkg"], t["damage"] = c09.gen_package(rng), None
        if t["t"] == "aasx" and not t.get("pkg") and rng.random() < 0.4:
            t["t"] = "zip"
        elif disturb and rng.random() < 0.3:
            t["read"] = [rng.choice([1, 7, 64, 4096]), round(rng.random(), 4)]
    else:
        t = {"t": "data", "doc": rng.choice(docs.KEYS), "damage": rng.randrange(10**6) if rng.random() < 0.4 else None,
             "model": rng.choice(MODELS + ["Environment"] * 2), "xml": rng.random() < 0.4}
        if rng.random() < 0.3:
            t["note"] = rng.choice(NOTES[:8])
    if disturb and rng.random() < 0.6:
        t["line"] = [rng.randrange(10**6), rng.choice(list(EXC)), rng.random() < 0.15]
    if rng.random() < 0.3:
        t["reuse"] = True
    return t


def gen(rng, i, tier):
    hist = [gen_task(rng, i, rng.random() < 0.75) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
    probe = gen_task(rng, i, False)
    if rng.random() < 0.5:              # the same check as a disturbed one before
        p = rng.choice(hist)
        probe = {k: v for k, v in p.items() if k not in ("line", "read")}
        if probe["t"] == "server":
            probe["faults"], probe["raise"] = [], None
            probe.pop("dead", None)
            if rng.random() < 0.3:
                probe["ckw"] = c09.gen_ckw(rng)
        if rng.random() < 0.5:
            probe["reuse"] = True
            p["reuse"] = True
    if probe["t"] != "server" and rng.random() < 0.5:     # preceded by a check of a document which differs slightly
        other = {k: v for k, v in probe.items() if k not in ("reuse", "pkg")}
        other["doc"] = c09.twin_key(probe["doc"], rng)
        if rng.random() < 0.5:
            probe, other = {k: v for k, v in other.items()}, {k: v for k, v in probe.items() if k not in ("reuse", "pkg")}
        hist.append(other)
    scn = {"tasks": hist + [probe]}
    if rng.random() < 0.04:
        scn["other"] = {"hash": rng.randrange(1, 10**6), "tz": rng.choice(["UTC", "Asia/Kolkata", "America/New_York"]),
                        "lang": rng.choice(["C", "C.UTF-8", "POSIX"]), "start": rng.choice([0.0, 86400.0, 4e9]), "rand": rng.randrange(10**6),
                        "opt": rng.random() < 0.3}
    return scn


def clean(t):
    """The undisturbed part of a task: what it checks."""
    c = {k: v for k, v in t.items() if k not in ("line", "read", "reuse", "client")}
    if t["t"] == "server":
        c["faults"], c["raise"] = [], None
        c.pop("exc", None)
        c.pop("dead", None)
    return c


def sane(t):
    return t.get("line") is None and t.get("read") is None and t.get("raise") is None


def doc_of(t):
    """A parsed document for a data check."""
    e = docs.env(t["doc"])
    m = t["model"]
    sms = e.get("submodels") or [{}]
    d = {"Environment": e, "AssetAdministrationShell": (e.get("assetAdministrationShells") or [{}])[0], "Submodel": sms[0],
         "ConceptDescription": (e.get("conceptDescriptions") or [{}])[0]}.get(m)
    if d is None:
        els = sms[0].get("submodelElements") or [{}]
        d = next((x for x in els if x.get("modelType") == m), els[0])
    d = copy.deepcopy(d)
    if t["damage"] is not None:
        d = damage(random.Random(t["damage"]), d)
    if not t["xml"]:
        if t.get("note") and isinstance(d, dict):
            d[t["note"]] = "x"
        return d
    from xml.etree import ElementTree
    try:
        return ElementTree.fromstring(docs.xml_bytes(d, m[0].lower() + m[1:]))
    except Exception:
        return ElementTree.fromstring(b"<x/>")


def snapshot(x):
    from xml.etree import ElementTree
    if isinstance(x, ElementTree.Element):
        return ElementTree.tostring(x)
    return jdump(x) if isinstance(x, (dict, list, str, int, float, bool, type(None))) else repr(x)


def view(x, depth=3):
    """The plain data which a configuration object publishes (no private attributes: caches are its own business)."""
    if x is None or isinstance(x, (str, bytes, int, float, bool)):
        return repr(x)
    if isinstance(x, re.Pattern):
        return x.pattern
    if isinstance(x, (list, tuple)):
        return [view(y, depth) for y in x]
    if isinstance(x, dict):
        return {str(k): view(y, depth) for k, y in x.items()}
    if depth and hasattr(x, "__dict__") and not callable(x):
        return {k: view(y, depth - 1) for k, y in vars(x).items() if not k.startswith("_")}
    return None


def unchanged(before, after):
    """Attributes may be added, not changed or removed."""
    if isinstance(before, dict) and isinstance(after, dict):
        return all(k in after and unchanged(v, after[k]) for k, v in before.items())
    return before == after


def settings(client, conf):
    # headers: exactly those which were given
    return {"client": view(client), "conf": view(conf)}, sorted((client.additional_headers or {}).items())


class Tracer:
    def __init__(self, at, exc, everywhere):
        self.at, self.exc, self.n, self.fired = at, exc, 0, False
        self.prefix = "/" if everywhere else os.path.realpath(boot.REPO) + "/aas_test_engines"
        self.libs = everywhere
        self.mute = 0           # depth of simulator frames on the stack: what they call is not the system under test

    def quiet(self, frame, event, arg):
        if event == "return":
            self.mute -= 1
        return self.quiet

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(boot.VERIF):
            if not self.libs or not fn.startswith(os.path.join(boot.VERIF, "sim")):
                return None
            self.mute += 1
            return self.quiet
        if not fn.startswith(self.prefix):
            return None
        if self.libs and ("importlib" in fn or fn.endswith(("/threading.py", "/weakref.py", "/_weakrefset.py",
                                                                                             "/abc.py", "/typing.py", "/enum.py"))):
            return None
        return self.loc

    def loc(self, frame, event, arg):
        if event == "line" and not self.mute:
            self.n += 1
            if self.n - 1 == self.at:
                self.fired = True
                self.conns = wd._current.connections if wd._current else 0
                sys.settrace(None)
                raise EXC[self.exc]("injected")
        return self.loc


def traced(fn, tr):
    def go():
        sys.settrace(tr.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)
    return go


def with_renderings(r):
    return rn.tree(r), c09.renderings(r)


def build(t, store, n=1):
    """(function, host or None, unmodified()) of a task; `store` keeps objects which later tasks reuse."""
    key = jdump([t.get(k) for k in ("t", "profile", "ds", "op", "doc", "damage", "pkg", "model", "xml", "note", "dry", "ckw")])
    old = store.get(key) if t.get("reuse") else None
    if t["t"] == "server":
        from aas_test_engines import api
        h, client, conf = c09.server_parts(t, "h.sim", n, t["op"])
        h.interrupt_exc = EXC[t.get("exc") or "KeyboardInterrupt"]
        if t.get("dry"):
            conf.dry = True
        if old:
            client, conf = old
        elif t.get("reuse"):
            store[key] = (client, conf)
        if t.get("client"):             # one client for all checks of the server
            client = store.setdefault("client" + jdump(t.get("ckw")), client)
        before = settings(client, conf)

        def same():
            after = settings(client, conf)
            return unchanged(before[0], after[0]) and before[1] == after[1]

        def go():
            r, m = api.execute_tests(client, conf)
            return rn.tree(r), rn.mat_tuple(m), c09.renderings(r)
        return go, h, same
    from aas_test_engines import file
    if t["t"] == "zip":
        import zipfile
        d = old if old is not None else zipfile.ZipFile(io.BytesIO(c09.content(t)))
        if t.get("reuse"):
            store[key] = d
        return (lambda: with_renderings(file.check_aasx_data(d))), None, lambda: d.fp is not None
    if t["t"] == "data":
        d = old if old is not None else doc_of(t)
        if t.get("reuse"):
            store[key] = d
        before = snapshot(d)
        f = file.check_xml_data if t["xml"] else file.check_json_data
        return (lambda: with_renderings(f(d, model_type=t["model"]))), None, lambda: before == snapshot(d)
    b = c09.content(t)
    chunk, fail = (t["read"][0], int(t["read"][1] * len(b))) if t.get("read") else (None, None)
    f = {"json": file.check_json_file, "xml": file.check_xml_file, "aasx": file.check_aasx_file}[t["t"]]

    def go():
        src = io.BytesIO(b) if chunk is None else io.BufferedReader(docs.FaultyFile(b, chunk, fail), 16)
        return with_renderings(f(src))
    return go, None, lambda: True


def do(t, store, n=1, tr=None, start=0.0):
    fn, h, same = build(t, store, n)
    if tr is not None:
        fn = traced(fn, tr)
    with wd.World([h] if h else []) as w:
        w.now = start
        out = c09.outcome(fn)
    log = [(r.method, r.target, tuple(r.headers)) for r in h.log] if h else []
    return out, log, same(), w


def alone(t):
    """(outcome, traffic, engine lines, all lines) of a task run alone."""
    out, log, same, w = do(t, {}, alone_n(t))
    return out, log, w.hang


def count_lines(t):
    n = alone_n(t)
    a, b = Tracer(-1, "Boom", False), Tracer(-1, "Boom", True)
    do(t, {}, n, a)
    do(t, {}, n, b)
    return a.n, b.n


def alone_n(t):
    if t["t"] != "server":
        return 1
    return pristine(("c09n", t["profile"], tuple(t["ds"]), t["op"]), c09.healthy, t["profile"], t["ds"], t["op"])


def other_process(t, o):
    """The task in a fresh interpreter with a different environment."""
    env = {k: v for k, v in os.environ.items() if k not in ("LC_ALL", "LANG", "TZ")}
    env.update(PYTHONHASHSEED=str(o["hash"]), TZ=o["tz"], LC_ALL=o["lang"], LANG=o["lang"], SIM_BOOTED="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    code = ("import sys; sys.path.insert(0, %r); from sim import boot; boot.load(); from props import c10; import json, random, pickle; "
            "d = json.loads(sys.argv[1]); random.seed(d[1]['rand']); "
            "sys.stdout.buffer.write(pickle.dumps(c10.do(d[0], {}, d[2], None, d[1]['start'])[:2]))" % boot.VERIF)
    p = subprocess.run([sys.executable, "-B"] + ["-c", code, jdump([t, o, alone_n(t)])], capture_output=True, env=env, cwd="/")
    if p.returncode != 0:
        raise wd.HarnessError(f"probe process: {p.stderr.decode()[-1500:]}")
    import pickle
    return pickle.loads(p.stdout)


def label(t):
    if t["t"] == "server":
        return f"server check {t['profile']}/{t['op']}"
    if t["t"] == "data":
        return f"{'XML' if t['xml'] else 'JSON'} data check {t['model']}"
    return "package data check" if t["t"] == "zip" else f"{t['t']} file check"


def run(scn, ctx):
    gc.disable()
    sys.unraisablehook = lambda *a: None      # interrupts which hit a finalizer
    plan = []
    for t in scn["tasks"]:
        base = pristine(("c10", jdump({k: v for k, v in t.items() if k not in ("line", "read", "reuse", "client")})), alone,
                        {k: v for k, v in t.items() if k not in ("line", "read", "reuse", "client")}) if sane(t) else None
        tr = None
        if t.get("line"):
            a, b = pristine(("c10n", jdump(clean(t))), count_lines, clean(t))
            k = b if t["line"][2] else a
            tr = Tracer(t["line"][0] % max(1, k), t["line"][1], t["line"][2])
        plan.append((t, base, tr, alone_n(t)))
    other = None
    if scn.get("other"):
        other = other_process(clean(scn["tasks"][-1]), scn["other"])
    store = {}
    shape = []
    for i, (t, base, tr, n) in enumerate(plan):
        what = f"check {i} ({label(t)}) after {i} other(s)"
        out, log, same, w = do(t, store, n, tr)
        if w.harness_error:
            raise wd.HarnessError(w.harness_error)
        ctx.fired.update(w.fired)
        if tr is not None and tr.fired:
            ctx.fired["interrupt_line_" + tr.exc] += 1
        if t.get("read"):
            ctx.fired["read_error"] += 1
        ctx.sim_s += w.now
        ctx.steps += (tr.n if tr else 0) + len(log)
        ctx.note(out, len(log))
        shape.append((t["t"], t.get("profile"), t.get("op"), bool(tr), out[0]))
        if not same:
            return viol("modified", f"{what}: changed the document, configuration or client it was given")
        if w.hang:
            return viol("hang", f"{what}: {w.hang}")
        if base is None:
            continue
        ref, rlog, _ = base
        if out != ref:
            if out[0] != ref[0] or out[0] == "raised":
                return viol("outcome", f"{what}: {str(out)[:250] if out[0] == 'raised' else 'completed'}, in a fresh process "
                                       f"{str(ref)[:250] if ref[0] == 'raised' else 'completes'}")
            a, b = out[1][0], ref[1][0]
            if a == b and out[1][-1] != ref[1][-1]:
                return viol("rendering", f"{what}: the renderings of the report differ from those in a fresh process")
            if a == b:
                return viol("tally", f"{what}: tally {out[1][1]}, in a fresh process {ref[1][1]}")
            return viol("report", f"{what}: differs from the report in a fresh process: {diff_path(a, b)}")
        if log != rlog:
            return viol("traffic", f"{what}: {log_diff([x + (0,) for x in log], [x + (0,) for x in rlog])}")
    ctx.shape = tuple(shape)
    if other is not None:
        ctx.fired["other_process"] += 1
        t = scn["tasks"][-1]
        ref = plan[-1][1]
        if ref is not None and other[0] != ref[0]:
            return viol("process", f"{label(t)}: in another process (hash seed {scn['other']['hash']}, {scn['other']['lang']}) the result differs: "
                                   f"{diff_path(other[0], ref[0])}")
        if ref is not None and other[1] != ref[1]:
            return viol("process", f"{label(t)}: in another process the requests differ: "
                                   f"{log_diff([x + (0,) for x in other[1]], [x + (0,) for x in ref[1]])}")
    return None


def shrink(scn):
    ts = scn["tasks"]
    if scn.get("other"):
        yield {k: v for k, v in scn.items() if k != "other"}
    for i in range(len(ts) - 1):
        yield {**scn, "tasks": ts[:i] + ts[i + 1:]}
    for i, t in enumerate(ts):
        for k in ("faults",):
            if t.get(k):
                for c in ddmin_candidates(t[k]):
                    yield {**scn, "tasks": ts[:i] + [{**t, k: c}] + ts[i + 1:]}
        for k in ("damage", "raise", "line", "read", "reuse", "dead"):
            if t.get(k) is not None:
                yield {**scn, "tasks": ts[:i] + [{**t, k: None}] + ts[i + 1:]}
