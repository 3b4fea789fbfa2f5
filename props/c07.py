import re

from .common import *
from . import c03, c05

ID = "C07"
RUNS = {"quick": 1600, "thorough": 24000}
RULE = ("seeded profile, dataset, filter and fault sequence (failed requests, 5xx, malformed, arbitrary and damaged JSON answers, dying "
        "servers, up to 40 faults); the tally, the summary and the entries of the report are reconciled; distinct = different trace "
        "hash; non-trivial = at least one fault fired")


def gen(rng, i, tier):
    p, key = pool_pick(rng, i)
    n = rng.choice([0, 1, 2, 4, 8, 20, 40])
    kinds = rng.choice([FAIL, ANSWER, FAIL + ANSWER + ("stale", "slow")])
    scn = {"profile": p, "ds": key, "faults": [], "burst": None, "inc": [], "exc": []}
    for _ in range(n):
        if rng.random() < 0.25:
            f = {"kind": rng.choice(["json", "damage", "damage"]), "seed": rng.randrange(10**9), "status": rng.choice([200, 200, 200, 404])}
        else:
            f = gen_fault(rng, kinds)
        scn["faults"].append([rng.randrange(10**6), f])
    if rng.random() < 0.1:
        scn["burst"] = [rng.randrange(10**6), rng.choice([5, 20, 60, 1000]), gen_fault(rng, FAIL + ANSWER)]
    if rng.random() < 0.6:
        scn["inc"] = [c05.gen_pattern(rng, OPERATIONS[p]) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.2:
        scn["exc"] = [c05.gen_pattern(rng, OPERATIONS[p])]
    return scn


def run(scn, ctx):
    p, key = scn["profile"], scn["ds"]
    so = {"superset": True}
    try:
        base = full(p, key, so)
    except BaselineBroken as e:
        return viol("baseline", str(e))
    n = base.conns
    faults = place(scn["faults"], n, first=1)
    special = {k: f for k, f in faults.items() if f["kind"] in ("json", "damage")}
    faults = {k: f for k, f in faults.items() if k not in special}
    if scn["burst"]:
        a, ln, f = scn["burst"]
        for k in range(a % n, min(a % n + ln, 2 * n + 50)):
            faults[k] = f
    expr = None
    if scn["inc"] or scn["exc"]:
        expr = ":".join(scn["inc"]) + ("~" + ":".join(scn["exc"]) if scn["exc"] else "")
    o = rn.check_server(p, ds(key), so, faults=faults, flt=expr, hooks=[c03.make_hook(special)] if special else [])
    ctx.saw(o)
    ctx.shape = (p, o.mat, tuple(sorted(o.fired)))
    what = f"{p}, filter {expr!r}, faults {sorted(o.fired)}"
    if o.tree is None:
        return viol("raised", f"{what}: the check {o.verdict()}")
    bn = dict(rn.op_nodes(base.tree))
    total = (0, 0, 0, 0)
    for op, node in rn.op_nodes(o.tree):
        t, bt = tally_of(node), tally_of(bn[op]) if op in bn else None
        total = add(total, t)
        setup = rn.sub(node, "Setup")
        if setup is None or failed(setup):
            if t != (0, 0, 0, 0):
                return viol("setup", f"{what}: {op} lists tests {t} though its preparation failed")
            continue
        if bt is not None and (t[0] + t[1], t[2] + t[3]) != (bt[0] + bt[1], bt[2] + bt[3]):
            return viol("count", f"{what}: {op} reports {t[0] + t[1]} valid and {t[2] + t[3]} invalid tests, on a healthy server "
                                 f"{bt[0] + bt[1]} and {bt[2] + bt[3]}")
    if o.mat != total:
        return viol("tally", f"{what}: tally (valid accepted, valid rejected, invalid accepted, invalid rejected) is {o.mat}, the "
                             f"report says {total}")
    summ = [c for c in o.tree[2] if c[0].startswith("Summary")]
    reached = bool(rn.op_nodes(o.tree)) or bool(summ)
    if reached:
        if len(summ) != 1:
            return viol("summary", f"{what}: {len(summ)} summaries")
        nums = {}
        for c in summ[0][2]:
            m = re.search(r"(\w+) tests passed: (\d+) / (\d+)$", c[0])
            if m:
                nums[m.group(1)] = (int(m.group(2)), int(m.group(3)))
        want = {"Negative": (total[3], total[2] + total[3]), "Positive": (total[0], total[0] + total[1])}
        if nums != want:
            return viol("summary", f"{what}: the summary says {nums}, the report {want}")
    elif o.mat != (0, 0, 0, 0):
        return viol("tally", f"{what}: tally {o.mat} though no operation is reported")
    if total[1] + total[2] and o.tree[1] < 2:
        return viol("level", f"{what}: failed tests {total}, but the report is compliant")
    return None


def shrink(scn):
    if scn["burst"]:
        yield {**scn, "burst": None}
        a, ln, f = scn["burst"]
        if ln > 1:
            yield {**scn, "burst": [a, ln // 2, f]}
    yield from shrink_dicts(scn, ["faults", "inc", "exc"])
