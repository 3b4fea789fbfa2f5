import contextlib
import io
import sys

from .common import *
from . import c04

ID = "C05"
RUNS = {"quick": 2200, "thorough": 24000}
RULE = ("seeded filter expression (include and exclude glob lists built from and around the operation names) x profile x dataset x dry or "
        "live x healthy server, faulty operations or unreachable server; compared with the unfiltered check; distinct = different "
        "trace hash")

WORDS = ["Get", "All", "Submodel", "Element", "ByPath", "ById", "Asset", "-Path", "-ValueOnly", "-Metadata", "-Reference", "Shell",
         "File", "s", "Elements", "Description", "Serialization"]


def gen_pattern(rng, names):
    r = rng.random()
    n = rng.choice(names)
    if r < 0.2:
        return n
    if r < 0.35:
        return n[:rng.randrange(1, len(n) + 1)] + "*"
    if r < 0.5:
        return "*" + n[rng.randrange(len(n)):]
    if r < 0.65:
        return "*" + rng.choice(WORDS) + "*"
    if r < 0.72:
        k = rng.randrange(len(n))
        return n[:k] + "?" + n[k + 1:]
    if r < 0.78:
        k = rng.randrange(len(n))
        return n[:k] + "[" + rng.choice(["a-z", "A-Z", "!a-z", n[k], "!" + n[k], "xyz"]) + "]" + n[k + 1:]
    if r < 0.84:
        return n.lower() if rng.random() < 0.5 else n.upper()
    if r < 0.9:
        return n[:-1]
    if r < 0.94:
        return rng.choice(["*", "?*", "*-*", "", " ", "nope", "Get", "GetSubmodel?"])
    if r < 0.96:
        return n[rng.randrange(len(n)):]
    if r < 0.98:
        return rng.choice([" " + n, n + " ", "\t" + n, n + "\n"])
    a, b = sorted((rng.randrange(len(n) + 1), rng.randrange(len(n) + 1)))
    return n[:a] + "*" + n[b:]


def gen(rng, i, tier):
    p, key = pool_pick(rng, i)
    names = OPERATIONS[p]
    inc = [gen_pattern(rng, names) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5, 12]))]
    exc = [gen_pattern(rng, names) for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 5, 12]))]
    scn = {"profile": p, "ds": key, "inc": inc, "exc": exc, "tilde": bool(exc) or rng.random() < 0.2, "filter": True,
           "dry": rng.random() < 0.25, "hits": [], "dead": None, "cli": rng.random() < 0.2}
    if not inc and not exc and rng.random() < 0.5:
        scn["filter"] = False
    r = rng.random()
    if r < 0.3:
        scn["hits"] = [[rng.randrange(10**6), rng.randrange(10**6), gen_fault(rng, c04.KINDS)] for _ in range(rng.choice([1, 1, 3]))]
    elif r < 0.36:
        scn["dead"] = gen_fault(rng, FAIL)
    return scn


def glob_match(pat, s):
    """Own matcher for shell globs: * ? [abc] [a-z] [!abc]."""
    toks, i = [], 0
    while i < len(pat):
        c = pat[i]
        if c == "[":
            j = i + 1
            if j < len(pat) and pat[j] == "!":
                j += 1
            if j < len(pat) and pat[j] == "]":
                j += 1
            while j < len(pat) and pat[j] != "]":
                j += 1
            if j < len(pat):
                body = pat[i + 1:j]
                neg = body.startswith("!")
                body = body[1:] if neg else body
                chars, k = set(), 0
                while k < len(body):
                    if k + 2 < len(body) and body[k + 1] == "-":
                        chars |= {chr(x) for x in range(ord(body[k]), ord(body[k + 2]) + 1)}
                        k += 3
                    else:
                        chars.add(body[k])
                        k += 1
                toks.append(("set", neg, chars))
                i = j + 1
                continue
        toks.append(("*",) if c == "*" else ("?",) if c == "?" else ("c", c))
        i += 1
    reach = {0}
    for t in toks:
        nxt = set()
        for k in reach:
            if t[0] == "*":
                nxt |= set(range(k, len(s) + 1))
            elif k < len(s) and (t[0] == "?" or (t[0] == "c" and s[k] == t[1]) or (t[0] == "set" and (s[k] in t[2]) != t[1])):
                nxt.add(k + 1)
        reach = nxt
    return len(s) in reach


def selected(scn, op):
    inc = [x for x in scn["inc"] if x.strip()]
    exc = [x for x in scn["exc"] if x.strip()]
    if not scn["filter"]:
        return True
    return (not inc or any(glob_match(x, op) for x in inc)) and not any(glob_match(x, op) for x in exc)


def run(scn, ctx):
    p, key = scn["profile"], scn["ds"]
    so = {"superset": True}
    try:
        base, s = full(p, key, so), solos(p, key, so)
    except BaselineBroken as e:
        return viol("baseline", str(e))
    order = report_ops(base)
    want_log = c04.real_log(base.log)[:1]
    for op in order:
        want_log += c04.real_log(s[op].log)[1:]
        if op_node(s[op], op) != op_node(base, op):
            return viol("differs", f"{p}: {op} checked alone differs from {op} in an unfiltered check: "
                                   f"{diff_path(op_node(s[op], op), op_node(base, op))}")
        if s[op].mat != tally_of(op_node(base, op)):
            return viol("differs", f"{p}: {op} checked alone has tally {s[op].mat}, in an unfiltered check "
                                   f"{tally_of(op_node(base, op))}")
    if want_log != c04.real_log(base.log):
        return viol("differs", f"{p}: the requests of the operations checked alone do not add up to those of an unfiltered check: "
                    f"{log_diff([(*x, 0, 0) for x in want_log], [(*x, 0, 0) for x in c04.real_log(base.log)])}")
    expr = None
    if scn["filter"]:
        expr = ":".join(scn["inc"]) + ("~" + ":".join(scn["exc"]) if scn["tilde"] else "")
    sel = [op for op in order if selected(scn, op)]
    # faults in some of the operations
    plan = {}
    for o_, pos, f in scn["hits"]:
        pick = sel or order
        op = o_ if isinstance(o_, str) else pick[o_ % len(pick)]
        plan.setdefault(op, {})[1 + pos % (s[op].conns - 1)] = f
    alone = {}
    if not scn["dry"] and not scn["dead"]:
        for op, faults in plan.items():
            if op in sel:
                o = pristine(("c04", p, tuple(key), op, jdump(faults)), c04.solo_faulty, p, key, so, op, faults)
                if o.tree is None:
                    raise Skip()
                alone[op] = o
    faults, at, want = {}, 1, c04.real_log(base.log)[:1]
    for op in sel:
        one = alone.get(op, s[op])
        for r, f in plan.get(op, {}).items():
            if r < one.conns:
                faults[at - 1 + r] = f
        at += one.conns - 1
        want += c04.real_log(one.log)[1:]
    if scn["dead"]:
        faults = {i: scn["dead"] for i in range(40)}
    cli = scn.get("cli")
    if cli:
        o = run_cli(p, key, so, faults, expr, scn["dry"])
    else:
        o = rn.check_server(p, ds(key), so, faults=faults, flt=expr, dry=scn["dry"])
    ctx.saw(o)
    ctx.shape = (p, tuple(sel), scn["dry"])
    what = f"{p}, {'command line, ' if cli else ''}filter {expr!r}{', dry' if scn['dry'] else ''}{', faults ' + str(sorted(o.fired)) if o.fired else ''}"
    if o.tree is None:
        return viol("raised", f"{what}: the check {o.verdict()}")
    got = report_ops(o)
    if scn["dry"]:
        if o.conns:
            return viol("dry-traffic", f"{what}: {o.conns} connections in a dry run")
        if got != sel:
            return viol("dry-list", f"{what}: lists {got}, selected are {sel}")
        if not cli and o.mat != (0, 0, 0, 0):
            return viol("dry-tally", f"{what}: a dry run counts {o.mat}")
        return None
    if scn["dead"]:
        sent = [x for x in c04.real_log(o.log) if x != want[0]]
        if sent:
            return viol("dead-traffic", f"{what}: requests {sent[:2]} though the server cannot be reached")
        return None
    if got != sel:
        miss = [x for x in sel if x not in got]
        extra = [x for x in got if x not in sel]
        return viol("selection", f"{what}: not checked though selected: {miss}; checked though not selected: {extra}"
                    if miss or extra else f"{what}: operations are not in profile order: {got}")
    a = c04.real_log(o.log)
    if a != want:
        return viol("traffic", f"{what}: {log_diff([(*x, 0, 0) for x in a], [(*x, 0, 0) for x in want])}")
    tally = (0, 0, 0, 0)
    for op in sel:
        if op not in alone and op_node(o, op) != op_node(base, op):
            return viol("report", f"{what}: the report of {op} differs from the unfiltered check: "
                                  f"{diff_path(op_node(o, op), op_node(base, op))}")
        tally = add(tally, (alone.get(op) or s[op]).mat)
    if not cli and o.mat != tally:
        return viol("tally", f"{what}: tally {o.mat} instead of {tally}")
    return None


def run_cli(p, key, so, faults, expr, dry):
    """The same through the command line entry point."""
    from aas_test_engines import __main__ as m
    argv = ["prog", "check_server", "http://s.sim", PROFILES[p], "--output", "json"]
    if expr is not None:
        argv.append("--filter=" + expr)
    if dry:
        argv.append("--dry")
    h = wd.Host("s.sim", RefServer(p, ds(key), so), faults, None)
    o = rn.Outcome()
    o.tree = o.mat = o.exc = o.raw = o.errtext = None
    w = wd.World([h], budget=20000)
    old, out = sys.argv, io.StringIO()
    with w, contextlib.redirect_stdout(out):
        sys.argv = argv
        try:
            m.main()
        except SystemExit:
            pass
        except wd.HarnessError:
            raise
        except Exception as e:
            o.exc, o.errtext = e, rn.scrub(repr(e))
        finally:
            sys.argv = old
    if w.harness_error:
        raise wd.HarnessError(w.harness_error)
    o.hang, o.conns, o.now, o.fired, o.host, o.world, o.digest = w.hang, h.n, w.now, dict(w.fired), h, w, w.digest()
    o.log = [(r.method, r.target, tuple(r.headers), bytes(r.body)) for r in h.log]
    try:
        o.tree = as_tree(json.loads(out.getvalue()))
    except ValueError:
        o.errtext = o.errtext or "printed no report"
        o.exc = o.exc or RuntimeError(o.errtext)
    return o


def as_tree(x):
    return (rn.scrub(x["m"]), x["l"], tuple(as_tree(y) for y in x["s"]))


def shrink(scn):
    if scn.get("cli"):
        yield {**scn, "cli": False}
    yield from shrink_dicts(scn, ["hits", "inc", "exc"])
