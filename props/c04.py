from .common import *

ID = "C04"
RUNS = {"quick": 900, "thorough": 20000}
RULE = ("seeded profile, dataset and fault sequence confined to 1..4 operations (5xx, failed requests, malformed payloads at arbitrary "
        "requests of theirs, or every request of theirs); the whole profile is checked and compared, operation by operation and test "
        "by test, with the undisturbed check; distinct = different trace hash; non-trivial = at least one fault fired")

KINDS = FAIL + ANSWER


def gen(rng, i, tier):
    p, key = pool_pick(rng, i)
    n = rng.choice([1, 1, 1, 2, 3, 4])
    hits = []
    for _ in range(n):
        op = rng.randrange(10**6)
        if rng.random() < 0.1:
            hits.append([op, "all", gen_fault(rng, KINDS)])
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                hits.append([op, rng.randrange(10**6), gen_fault(rng, KINDS)])
    scn = {"profile": p, "ds": key, "hits": hits, "whole": rng.random() < 0.5}
    if rng.random() < 0.2:      # an otherwise healthy server which takes its time
        scn["slow"] = [rng.choice([5.0, 25.0, 55.0]), rng.choice([1, 2, 7]), rng.randrange(7)]
    return scn


def real_log(log):
    return [(m, t) for m, t, _, _ in log if not t.endswith("/__loop__")]


def tests_of(node):
    out = []
    for part in ("Negative Tests", "Positive Tests"):
        s = rn.sub(node, part)
        out.append(list(s[2]) if s else None)
    return out


def within(op, node, base, faults, log, blog):
    """Compares an operation's faulty entry with the healthy one."""
    setup = rn.sub(node, "Setup")
    if setup is None:
        return viol("no-setup", f"{op}: no preparation reported")
    if failed(setup):
        return None
    bs = rn.sub(base, "Setup")
    if setup != bs:
        return None      # a wrong answer during preparation was accepted; the tests then work on other data
    bt, nt = tests_of(base), tests_of(node)
    diffs = []
    for name, b, a in zip(("negative", "positive"), bt, nt):
        if (b is None) != (a is None):
            return viol("tests-missing", f"{op}: {name} tests are {'missing' if a is None else 'new'} after a fault")
        if b is None:
            continue
        if [x[0] for x in a] != [x[0] for x in b]:
            return viol("tests-missing", f"{op}: after faults in single tests the {name} tests reported are "
                                         f"{[x[0].strip() for x in a]}, on a healthy server {[x[0].strip() for x in b]}")
        diffs += [y[0].strip() for x, y in zip(b, a) if x != y]
    if len(diffs) > len(faults):
        return viol("spread", f"{op}: {len(faults)} faulty requests changed {len(diffs)} tests: {diffs[:4]}")
    # requests: only requests of a hit test may be missing
    if len(faults) == 1 and len(diffs) <= 1:
        (r, f), = faults.items()
        head = blog[:r] if f["kind"] in wd.CONNECT_FAULTS + ("nomem",) else blog[:r + 1]
        if log[:len(head)] != head or (log[len(head):] and log[len(head):] != blog[len(blog) - (len(log) - len(head)):]):
            return viol("requests", f"{op}: after a fault at its request {r} the requests are not those of a healthy server: "
                                    f"{log_diff([(*x, 0, 0) for x in log], [(*x, 0, 0) for x in blog])}")
    return None


def slowly(scn, faults, n):
    """Adds slow answers to requests without fault."""
    if not scn.get("slow"):
        return faults
    d, step, off = scn["slow"]
    return {**{i: {"kind": "slow", "delay": d} for i in range(n) if i % step == off % step}, **faults}


def solo_faulty(p, key, so, op, faults):
    return rn.check_server(p, ds(key), so, faults=faults, flt=op).plain()


def run(scn, ctx):
    p, key = scn["profile"], scn["ds"]
    so = {"superset": True}
    try:
        base, s = full(p, key, so), solos(p, key, so)
    except BaselineBroken as e:
        return viol("baseline", str(e))
    order = report_ops(base)
    plan = {}
    for o_, pos, f in scn["hits"]:
        op = o_ if isinstance(o_, str) else sorted(s)[o_ % len(s)]
        n = s[op].conns
        if pos == "all":
            plan[op] = {i: f for i in range(1, 3 * n + 40)}
        else:
            plan.setdefault(op, {})[1 + pos % (n - 1)] = f
    # what each hit operation does on its own
    alone = {}
    for op, faults in plan.items():
        fs = slowly(scn, faults, 600)
        o = pristine(("c04", p, tuple(key), op, jdump(faults), jdump(scn.get("slow"))), solo_faulty, p, key, so, op, fs)
        if o.tree is None:
            return viol("raised", f"{p}/{op} with {sorted(o.fired)}: the check {o.verdict()}")
        alone[op] = o
        node = op_node(o, op)
        if node is None:
            return viol("not-reported", f"{op} is not reported after {sorted(o.fired)}")
        ctx.saw(o)
        v = within(op, node, op_node(s[op], op), {k: f for k, f in faults.items() if k < o.conns}, real_log(o.log),
                   real_log(s[op].log))
        if v:
            return v
    ctx.shape = (p, tuple(sorted(plan)), tuple(sorted(k for o in alone.values() for k in o.fired)))
    if not scn["whole"]:
        return None
    faults, at, want = {}, 1, real_log(base.log)[:1]
    for op in order:
        one = alone.get(op, s[op])
        for r, f in plan.get(op, {}).items():
            if r < one.conns:
                faults[at - 1 + r] = f
        at += one.conns - 1
        want += real_log(one.log)[1:]
    o = rn.check_server(p, ds(key), so, faults=slowly(scn, faults, 3000))
    ctx.saw(o)
    what = f"{p} with {sorted(o.fired)} in {sorted(plan)}"
    if o.tree is None:
        return viol("raised", f"{what}: the check {o.verdict()}")
    if report_ops(o) != order:
        return viol("operations", f"{what}: reported operations are {report_ops(o)} instead of {order}")
    bn, on = dict(rn.op_nodes(base.tree)), dict(rn.op_nodes(o.tree))
    for op in order:
        if op not in plan and on[op] != bn[op]:
            return viol("not-confined", f"{what}: the report of {op} changed: {diff_path(on[op], bn[op])}")
        if op in plan and failed(op_node(alone[op], op)) != failed(on[op]):
            return viol("not-confined", f"{what}: {op} is {'' if failed(on[op]) else 'not '}reported as error, alone it is the opposite")
    a = real_log(o.log)
    if a != want:
        return viol("traffic", f"{what}: {log_diff([(*x, 0, 0) for x in a], [(*x, 0, 0) for x in want])}")
    tally = (0, 0, 0, 0)
    for op in order:
        tally = add(tally, (alone.get(op) or s[op]).mat)
    if o.mat != tally:
        return viol("tally", f"{what}: tally {o.mat} instead of {tally}")
    return None


def shrink(scn):
    yield from shrink_dicts(scn, ["hits"])
    if scn.get("slow"):
        yield {k: v for k, v in scn.items() if k != "slow"}
    if scn["whole"]:
        yield {**scn, "whole": False}
