from .common import *
from . import c10

ID = "C03"
RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("seeded profile, dataset, filter, transport and fault sequence: 1..12 faults at arbitrary connection indexes, bursts (the "
        "server dies and possibly comes back), arbitrary or damaged JSON answers, or a user interrupt at one connection or at any executed line of the engine; non-trivial "
        "= at least one fault fired; distinct = different trace hash")


def gen(rng, i, tier):
    p, key = pool_pick(rng, i)
    scn = {"profile": p, "ds": key, "op": rng.randrange(10**6) if rng.random() < 0.6 else None,
           "transport": gen_transport(rng) if rng.random() < 0.3 else {}, "faults": [], "burst": None, "interrupt": None,
           "verify": rng.random() < 0.5, "line": None}
    if rng.random() < 0.08:
        scn["line"] = rng.randrange(10**9)
        if scn["op"] is None:
            scn["op"] = rng.randrange(10**6)
        if rng.random() < 0.6:
            return scn
    mode = rng.random()
    n = rng.choice([1, 1, 1, 2, 3, 6, 12])
    if mode < 0.1:
        scn["interrupt"] = rng.randrange(10**6)
        n = rng.choice([0, 0, 2])
    if mode < 0.45:
        scn["faults"] = [[rng.randrange(10**6), gen_fault(rng, FAIL)] for _ in range(n)]
    elif mode < 0.65:
        scn["faults"] = [[rng.randrange(10**6), gen_fault(rng, FAIL + ANSWER + ("stale", "slow"))] for _ in range(n)]
    elif mode < 0.9:
        scn["faults"] = [[rng.randrange(10**6), {"kind": rng.choice(["json", "damage", "damage"]), "seed": rng.randrange(10**9),
                                                 "status": rng.choice([200, 200, 200, 200, 400, 404])}] for _ in range(n)]
    else:
        scn["burst"] = [rng.randrange(10**6), rng.choice([2, 5, 20, 1000]), gen_fault(rng, FAIL + ANSWER)]
    return scn


def make_hook(special):
    """Answers of some connections replaced by arbitrary or damaged JSON."""
    def hook(host, req, resp):
        f = special.get(req.conn)
        if f is None:
            return resp
        r = random.Random(f["seed"])
        if f["kind"] == "damage":
            try:
                doc = damage(r, json.loads(resp.body))
            except ValueError:
                doc = rand_json(r)
        else:
            doc = rand_json(r)
        host.fire("json_" + f["kind"])
        return wd.Resp(f["status"], json.dumps(doc).encode())
    return hook


def count_lines(p, key, so, op):
    tr = c10.Tracer(-1, "KeyboardInterrupt", False)
    rn.check_server(p, ds(key), so, flt=op, tracer=tr.glob)
    return tr.n


def run(scn, ctx):
    p, key, tr = scn["profile"], scn["ds"], dict(scn["transport"])
    so = {"superset": True}
    try:
        if scn["op"] is None:
            base, op = full(p, key, so), None
        else:
            s = solos(p, key, so)
            names = sorted(s)
            op = scn["op"] if isinstance(scn["op"], str) else names[scn["op"] % len(names)]
            base = s[op]
    except BaselineBroken as e:
        return viol("baseline", str(e))
    n = base.conns
    faults = place(scn["faults"], n)
    special = {k: f for k, f in faults.items() if f["kind"] in ("json", "damage")}
    faults = {k: f for k, f in faults.items() if k not in special}
    if scn["burst"]:
        a, ln, f = scn["burst"]
        a %= n
        for k in range(a, min(a + ln, n * 2 + 50)):
            faults[k] = f
    if tr.get("no_length"):
        tr.pop("no_length")          # truncation would be undetectable
    for f in faults.values():
        if f["kind"] == "slow":
            f["delay"] = 20.0
    tracer = None
    if scn.get("line") is not None:
        lines = pristine(("c03-lines", p, jdump(key), op), count_lines, p, key, so, op)
        tracer = c10.Tracer(scn["line"] % lines, "KeyboardInterrupt", False)
    intr = None if scn["interrupt"] is None else scn["interrupt"] % n
    o = rn.check_server(p, ds(key), so, faults=faults, transport=tr, flt=op, hooks=[make_hook(special)] if special else [],
                        interrupt_at=intr, budget=4 * n + 40 * (len(faults) + len(special)) + 500,
                        client_kw={"verify": scn["verify"]}, tracer=tracer and tracer.glob)
    ctx.saw(o)
    if tracer is not None and tracer.fired and not o.fired.get("interrupt"):
        ctx.fired["interrupt_line"] += 1
        ctx.shape = (p, op, "line", tracer.conns)
        if o.hang:
            return viol("hang", f"{p}/{op}: the check does not end after an interrupt: {o.hang}")
        if not isinstance(o.exc, KeyboardInterrupt):
            return viol("interrupt", f"{p}/{op}: an interrupt at line {tracer.at} of the check did not reach the caller ({o.verdict()})")
        if o.world.connections > tracer.conns:
            return viol("interrupt-continues", f"{p}/{op}: {o.world.connections - tracer.conns} connections after an interrupt")
        return None
    nf = sum(o.fired.values())
    if not nf:
        raise Skip()
    ctx.shape = (p, op, tuple(sorted(o.fired)), o.conns)
    kinds = ",".join(sorted(o.fired))
    what = f"{p}{'/' + op if op else ''} with {kinds}"
    if o.hang:
        return viol("hang", f"{what}: the check does not end: {o.hang}")
    if o.fired.get("interrupt"):
        if not isinstance(o.exc, KeyboardInterrupt):
            return viol("interrupt", f"{what}: an interrupt at connection {intr} did not reach the caller ({o.verdict()})")
        if o.conns != intr + 1:
            return viol("interrupt-continues", f"{what}: {o.conns - intr - 1} connections after the interrupt")
        return None
    if o.exc is not None:
        return viol("raised", f"{what}: the check {o.verdict()}")
    if o.conns > 2 * n + 32 * nf + 50:
        return viol("requests", f"{what}: {o.conns} connections, {n} on a healthy server")
    if o.now > base.now + (20 + tr.get("rtt", 0)) * o.conns + 700 * nf + 100:
        return viol("time", f"{what}: {o.now:.0f} simulated seconds, {base.now:.0f} on a healthy server")
    hard = sum(v for k, v in o.fired.items() if k in FAIL)
    if hard:
        need = 1 if any(k.startswith("redirect") for k in o.fired) else hard
        if o.tree[1] < 2:
            return viol("silent", f"{what}: {hard} failed requests, but the report is compliant")
        got = len(leaves(o.tree))
        if got < need:
            return viol("unreported", f"{what}: {hard} failed requests, but only {got} findings")
        if not o.raw is None and o.raw.ok():
            return viol("silent", f"{what}: {hard} failed requests, but the result is ok()")
    return None


def shrink(scn):
    if scn["burst"]:
        a, ln, f = scn["burst"]
        if ln > 1:
            yield {**scn, "burst": [a, ln // 2, f]}
    yield from shrink_dicts(scn, ["faults", "transport"])
