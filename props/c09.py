import copy
import gc
import io
import os

from .common import *
from . import c11, c12
from sim import boot, docs, sched as sc

ID = "C09"
RUNS = {"quick": 500, "thorough": 30000}
RULE = ("seeded choice of 2..4 concurrent checks (server checks against own or shared simulated hosts with own or shared client and "
        "configuration objects, JSON, XML and AASX file checks and checks of own or shared parsed documents, valid or damaged, each with its renderings, faults and failures in some) x seeded schedule (switches "
        "at any executed line or bytecode of the engine, any socket or lock operation); every result is compared with the check run "
        "alone; distinct = different trace hash (schedule and results); non-trivial = at least one switch while two checks were active")
REAL = REAL + ["threads (real threads, one running at a time)"]
STUB = STUB + ["the operating system's thread scheduler (sim.sched)", "threading.Lock/RLock (cooperative)"]
ASSUME = ASSUME + ["switches happen between lines or bytecodes of the engine and at socket and lock operations; libraries are not preempted "
                   "elsewhere"]


# source files in which the switches of some schedules cluster
HOT = ["http.py", "result.py", "data_types.py", "reflect.py", "file.py", "opc.py", "config.py", "v3_0/api.py", "v3_0/parse.py", "v3_0/__init__.py",
       "v3_0/model.py"]


def before_load():
    sc.patch_locks()


def gen_package(rng):
    p = c11.gen(rng, 0, "quick")
    while any(d["kind"] == "chain" for d in p["defects"]):
        p = c11.gen(rng, 0, "quick")
    p["read"] = None
    return p


def gen_ckw(rng):
    """Settings of a client."""
    if rng.random() < 0.6:
        return None
    return rng.choice([{"additional_headers": {"X-A": rng.choice("12")}}, {"additional_headers": {"X-B": "1", "User-Agent": "own"}}, {"timeout": 30.0},
                       {"additional_headers": {}}])


def twin_key(doc, rng):
    return (doc + [None, []][len(doc) - 4:])[:6] + [rng.randrange(10**6)]


def gen_task(rng, i):
    r = rng.random()
    if r < 0.5:
        p, key = pool_pick(rng, i)
        return {"t": "server", "profile": p, "ds": key, "op": rng.choice(OPERATIONS[p]) if rng.random() < 0.98 else None,
                "faults": [[rng.randrange(10**6), gen_fault(rng, FAIL + ANSWER)] for _ in range(rng.choice([0, 0, 0, 1, 3]))],
                "raise": rng.randrange(10**6) if rng.random() < 0.08 else None,
                "tr": {"extra_headers": True} if rng.random() < 0.4 else None, "ckw": gen_ckw(rng)}
    if r < 0.6:
        return {"t": "data", "doc": rng.choice(docs.KEYS[:7]), "damage": rng.randrange(10**6) if rng.random() < 0.3 else None,
                "model": "Environment", "xml": rng.random() < 0.4}
    k = rng.choice(["json", "xml", "aasx"])
    if k == "aasx" and rng.random() < 0.5:
        return {"t": k, "doc": docs.KEYS[0], "damage": None, "pkg": gen_package(rng)}
    if k != "aasx" and rng.random() < 0.15:
        return {"t": k, "doc": [rng.randrange(20000), 0, False, False, None, ["values"]], "damage": None, "model": "Environment"}
    return {"t": k, "doc": rng.choice(docs.KEYS[:7]), "damage": rng.randrange(10**6) if rng.random() < 0.5 else None,
            "model": rng.choice(["Environment", "Environment", "Submodel", "AssetAdministrationShell", "Property"]) if k != "aasx" else "Environment"}


def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    tasks = [gen_task(rng, i) for _ in range(n)]
    if rng.random() < 0.3:
        t = next((t for t in tasks if t["t"] in ("server", "data")), None)
        if t:
            if t["t"] == "server":
                t["faults"], t["raise"] = [], None
            t["share"] = True
            t2 = dict(t)
            if t["t"] == "server" and t["op"] and rng.random() < 0.5:       # the same client checks two operations
                t2["op"] = rng.choice(OPERATIONS[t["profile"]])
            tasks = [dict(t), t2] + [x for x in tasks if x is not t][:1]
    if rng.random() < 0.15:                 # documents which differ slightly
        t = next((t for t in tasks if t["t"] != "server" and not t.get("pkg")), None)
        if t:
            tasks = tasks[:3] + [{**{k: v for k, v in t.items() if k != "share"}, "doc": twin_key(t["doc"], rng)}]
    mode = rng.random()
    hot = HOT if not any(t.get("share") and t["t"] == "server" for t in tasks) else HOT + ["http.py"] * len(HOT)
    if mode < 0.3:
        plan = {"mode": "hot", "hot": rng.choice(hot), "q": rng.choice([1.0, 0.5, 0.5, 0.1, 0.02]), "cold": rng.choice([0.0, 0.0001, 0.002]),
                "seed": rng.randrange(10**9)}
    elif mode < 0.75:
        plan = {"mode": "q", "q": rng.choice([1.0, 0.5, 0.2, 0.05, 0.01, 0.003, 0.001]), "seed": rng.randrange(10**9)}
    else:
        top = 10 ** rng.uniform(2, 5)
        plan = {"mode": "points", "points": sorted({int(rng.uniform(1, top)) for _ in range(rng.choice([1, 2, 3, 6]))}),
                "seed": rng.randrange(10**9)}
    plan["tick"] = rng.choice([0.0, 1e-6, 1e-5, 1e-4, 1e-3])
    return {"tasks": tasks, "plan": plan, "opcodes": rng.random() < 0.12}


def content(t):
    """The bytes a file task checks."""
    if t.get("pkg"):
        return c11.package_bytes(t["pkg"])
    e = docs.env(t["doc"])
    m = t.get("model") or "Environment"
    tag = m[0].lower() + m[1:]
    if m != "Environment" and t["t"] != "data":
        e = c12.find(e, m, 0) or {"modelType": m}
    good = e
    if t["damage"] is not None:
        e = damage(random.Random(t["damage"]), e)
    if t["t"] == "json":
        return docs.json_bytes(e)
    if t["t"] == "xml":
        try:
            b = docs.xml_bytes(e, tag)
        except Exception:
            b = docs.xml_bytes(good, tag)
            r = random.Random(t["damage"])
            k = r.randrange(len(b))
            b = b[:k] + b"x" + b[k + 1:]
        return b
    specs = [["aasx/a.json", docs.json_bytes(e)]]
    if (t["damage"] or 0) % 3:
        specs.append(["aasx/b.xml", docs.xml_bytes(docs.env(t["doc"]))])
    return docs.zip_bytes(docs.package({"specs": specs, "thumb": True}))


def renderings(r):
    """What the report looks like, rendered while other checks run."""
    return (sha(rn.scrub(r.to_html())), sha(rn.scrub("\n".join(r.to_lines()))), sha(rn.scrub(jdump(r.to_dict()))))


def parsed(t):
    """The parsed document of a data task."""
    e = content({**t, "t": "xml" if t["xml"] else "json"})
    if not t["xml"]:
        return json.loads(e)
    from xml.etree import ElementTree
    try:
        return ElementTree.fromstring(e)
    except ElementTree.ParseError:
        return ElementTree.fromstring(b"<x/>")


def data_fn(t, d):
    from aas_test_engines import file

    def go():
        r = (file.check_xml_data if t["xml"] else file.check_json_data)(d)
        return rn.tree(r), renderings(r)
    return go


def file_fn(t):
    from aas_test_engines import file
    if t["t"] == "data":
        return data_fn(t, parsed(t))
    b = content(t)

    def go():
        f = io.BytesIO(b)
        r = {"json": file.check_json_file, "xml": file.check_xml_file, "aasx": file.check_aasx_file}[t["t"]](f, **({} if t["t"] == "aasx" else {"model_type": t.get("model") or "Environment"}))
        return rn.tree(r), renderings(r)
    return go


class Boom(Exception):
    pass


def server_parts(t, name, n, op):
    """(host, client, configuration) of a server task."""
    from aas_test_engines import config, http
    faults = place(t["faults"], n)
    if t.get("dead"):           # the server goes down during the check
        faults = {i: t["dead"][0] for i in range(t["dead"][1], 3000)}
    h = wd.Host(name, RefServer(t["profile"], ds(t["ds"]), {"superset": True}), faults, t.get("tr") or {})
    if t["raise"] is not None:
        h.interrupt_at = t["raise"] % n
        h.interrupt_exc = KeyboardInterrupt
    client = http.HttpClient(f"http://{name}", **copy.deepcopy(t.get("ckw") or {}))
    conf = config.CheckApiConfig(suite=PROFILES[t["profile"]], filter=config.TestCaseFilter(op) if op else None)
    return h, client, conf


def server_fn(client, conf):
    from aas_test_engines import api

    def go():
        r, m = api.execute_tests(client, conf)
        return rn.tree(r), (rn.mat_tuple(m), renderings(r))
    return go


def outcome(fn):
    try:
        return ("ok", fn())
    except (wd.HarnessError, wd.SimHang):
        raise
    except BaseException as e:
        return ("raised", type(e).__name__, rn.scrub(str(e)))


def healthy(profile, key, op):
    """Number of requests of the undisturbed check."""
    return rn.check_server(profile, ds(key), {"superset": True}, flt=op).conns or 1


def solo_file(t):
    with wd.World():
        return outcome(file_fn(t))


def solo_server(t, name, n, op):
    h, client, conf = server_parts(t, name, n, op)
    with wd.World([h]) as w:
        out = outcome(server_fn(client, conf))
    return out, [(r.method, r.target, tuple(r.headers)) for r in h.log]


def run(scn, ctx):
    plan_tasks = []
    try:
        for i, t in enumerate(scn["tasks"]):
            if t["t"] != "server":
                plan_tasks.append((t, None, pristine(("c09f", jdump(t)), solo_file, t)))
                continue
            op = t["op"]
            n = pristine(("c09n", t["profile"], tuple(t["ds"]), op), healthy, t["profile"], t["ds"], op)
            name = "shared.sim" if t.get("share") else f"h{i}.sim"
            plan_tasks.append((t, (name, n, op), pristine(("c09s", jdump(t), name, op), solo_server, t, name, n, op)))
    except BaselineBroken as e:
        return viol("baseline", str(e))
    s = sc.Sched(os.path.realpath(boot.REPO) + "/aas_test_engines", scn["plan"], scn["opcodes"])
    w = wd.World(budget=50000, sched=s)
    fns, hosts, shared = [], [], None
    for t, srv, _ in plan_tasks:
        if srv is None:
            if t.get("share"):
                shared = shared or parsed(t)
                fns.append(lambda f=data_fn(t, shared): outcome(f))
            else:
                fns.append(lambda f=file_fn(t): outcome(f))
            hosts.append(None)
            continue
        if t.get("share"):
            if shared is None:
                shared = server_parts(t, *srv), t["op"]
            h, client, conf = shared[0]
            if t["op"] != shared[1]:
                conf = server_parts(t, *srv)[2]
        else:
            h, client, conf = server_parts(t, *srv)
        if h.name not in w.hosts:
            w.add(h)
        hosts.append(h)
        fns.append(lambda f=server_fn(client, conf): outcome(f))
    sc.ACTIVE = s
    gc.collect()
    gc.disable()        # finalizers would run at points which depend on the allocator
    with w:
        tasks = s.run(fns, w)
    sc.ACTIVE = None
    if w.harness_error:
        raise wd.HarnessError(w.harness_error)
    ctx.fired.update(w.fired)
    ctx.fired["switch"] += s.nswitch
    ctx.sim_s += w.now
    ctx.steps += s.step
    ctx.note(s.taken, s.step, w.digest())
    ctx.shape = (tuple((t["t"], t.get("profile"), (sv or (0, 0, 0))[2]) for t, sv, _ in plan_tasks), s.nswitch > len(fns))
    sched_note = {"schedule": {"switches": s.taken[:200000], "first": s.first, "tick": s.tick}}
    for i, ((t, srv, want), task) in enumerate(zip(plan_tasks, tasks)):
        what = f"check {i} ({t['t']}{' ' + t['profile'] + '/' + str(srv[2]) if srv else ''}) of {len(tasks)} concurrent ones"
        if task.error is not None:
            if isinstance(task.error, wd.HarnessError):
                raise task.error
            return viol("blocked", f"{what}: {rn.scrub(repr(task.error))[:200]}", **sched_note)
        got = task.result
        ref = want if srv is None else want[0]
        ctx.note(got)
        if got != ref:
            if got[0] != ref[0]:
                return viol("outcome", f"{what}: {got[0]} {str(got[1:])[:200] if got[0] == 'raised' else ''} instead of {ref[0]}", **sched_note)
            if got[0] == "raised":
                return viol("outcome", f"{what}: raised {got[1:]} instead of {ref[1:]}", **sched_note)
            a, b = got[1][0], ref[1][0]
            if a == b:
                if srv and got[1][1][0] != ref[1][1][0]:
                    return viol("tally", f"{what}: tally {got[1][1][0]}, alone {ref[1][1][0]}", **sched_note)
                return viol("rendering", f"{what}: the renderings of the report differ from those of the check run alone", **sched_note)
            return viol("report", f"{what}: differs from the report of the same check run alone: {diff_path(a, b)}", **sched_note)
        if srv is not None:
            log = [(r.method, r.target, tuple(r.headers)) for r in hosts[i].log]
            if t.get("share"):
                logs = [w_[1] for t_, _, w_ in plan_tasks if t_.get("share")]
                if sorted(log) != sorted(sum(logs, [])):
                    return viol("traffic", f"{what}: the requests at the shared server are not those of the {len(logs)} checks run alone", **sched_note)
            elif log != want[1]:
                return viol("traffic", f"{what}: {log_diff([x + (0,) for x in log], [x + (0,) for x in want[1]])}", **sched_note)
    return None


def explicit(scn, v):
    """Replaces the seeded schedule of a failing scenario by the switches it took."""
    if "switches" in scn["plan"] or "schedule" not in v:
        return None
    return {**scn, "plan": v["schedule"]}


def shrink(scn):
    if len(scn["tasks"]) > 2:
        for i in range(len(scn["tasks"])):
            yield {**scn, "tasks": scn["tasks"][:i] + scn["tasks"][i + 1:]}
    pl = scn["plan"]
    if "switches" in pl:
        for c in ddmin_candidates(pl["switches"]):
            yield {**scn, "plan": {**pl, "switches": c}}
    for i, t in enumerate(scn["tasks"]):
        for k in ("faults",):
            if t.get(k):
                yield {**scn, "tasks": scn["tasks"][:i] + [{**t, k: []}] + scn["tasks"][i + 1:]}
        for k in ("damage", "raise"):
            if t.get(k) is not None:
                yield {**scn, "tasks": scn["tasks"][:i] + [{**t, k: None}] + scn["tasks"][i + 1:]}
