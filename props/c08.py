import contextlib
import html.parser
import io
import json
import re
import sys

from .common import *

ID = "C08"
RUNS = {"quick": 40000, "thorough": 500000}
RULE = ("seeded histories of 1..4 step programs (random nesting of steps which write findings of any level, abort, raise contained or "
        "uncontained exceptions, are interrupted or exit; arbitrary messages), optionally with an asynchronous interrupt at an arbitrary "
        "executed line of the recording code; compared with an executable reference model and across all renderings; distinct = "
        "different trace hash")
REAL = ["aas_test_engines.result (all of it), driven through its public functions", "html.parser, json"]
STUB = ["the checks which use the report (replaced by generated step programs)", "asynchronous interrupts (raised by the tracer at the "
        "chosen line)"]
ASSUME = ["the reference model in props/c08.py states the intended semantics of steps", "interrupts are delivered at line granularity"]

MSGS = ["ok", "", " ", "Checking x", "<b>bold</b>", "</div></div>", "&lt;&amp;", "a & b", '"quoted" \'single\'', "<!-- CONTENT -->", "new\nline",
        "tab\tcr\r\n", "\x1b[0m", "\x1b[91mred", "\x00nul", "\ud800", "äöü €", "𝄞 clef", "\u202eright", "x" * 5000, "{}", "{0}", "%s %d", "\\n",
        "<script>alert(1)</script>", "]]>", "-->", "<div class=\"error\">", "&#0;", "&quot", "None", "</body></html>", "\u2028sep", "<span/>"]
EXC = ["ValueError", "RuntimeError", "KeyError", "AssertionError", "RecursionError", "OSError", "StopIteration", "MemoryError"]
BASE_EXC = ["KeyboardInterrupt", "SystemExit", "GeneratorExit"]


def gen_msg(rng):
    if rng.random() < 0.002:
        return "long " * rng.choice([5000, 14000])
    m = rng.choice(MSGS)
    if rng.random() < 0.2:
        m += rng.choice(MSGS)
    return m


def gen_tree(rng, depth=0):
    return [gen_msg(rng), rng.choice([0, 0, 1, 2, 3]), [gen_tree(rng, depth + 1) for _ in range(rng.choice([0, 0, 1, 2]))] if depth < 3 else []]


def gen_ops(rng, depth, budget):
    ops = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        r = rng.random()
        if r < 0.35 and depth < 7:
            ops.append(["s", gen_msg(rng), rng.choice([0, 0, 0, 1, 2, 3]), rng.random() < 0.5, gen_ops(rng, depth + 1, budget)])
        elif r < 0.55:
            ops.append(["w", gen_msg(rng), rng.choice([None, 0, 1, 2, 3])])
        elif r < 0.65:
            ops.append(["wt", gen_tree(rng)])
        elif r < 0.75:
            ops.append(["a", gen_msg(rng), rng.choice([None, 0, 1, 2, 3])])
        elif r < 0.8:
            ops.append(["at", gen_tree(rng)])
        elif r < 0.88:
            ops.append(["r", rng.choice(EXC), gen_msg(rng) if rng.random() < 0.8 else None])
        elif r < 0.9:
            ops.append(["r", rng.choice(BASE_EXC), "stop"])
        elif r < 0.96 and depth < 7:
            ops.append(["t", rng.choice(EXC + BASE_EXC), gen_ops(rng, depth + 1, budget), gen_ops(rng, depth + 1, budget) if rng.random() < 0.5 else []])
        elif r < 0.98 and depth < 7:
            ops.append(["f", gen_ops(rng, depth + 1, budget), gen_ops(rng, depth + 1, budget)])
        else:
            ops.append(["w", gen_msg(rng), None])
    return ops


def gen(rng, i, tier):
    progs = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        progs.append([gen_msg(rng), rng.choice([0, 0, 0, 1, 2]), rng.random() < 0.3, gen_ops(rng, 0, [rng.choice([5, 15, 60, 200])])])
    r = rng.random()
    if r < 0.015:       # a deep report
        ops = [["w", gen_msg(rng), 2]]
        for _ in range(rng.choice([13, 20, 40, 100])):
            ops = [["s", gen_msg(rng), 0, False, ops + ([["w", gen_msg(rng), None]] if rng.random() < 0.3 else [])]]
        progs.append(["deep", 0, False, ops])
    elif r < 0.03:      # a wide report
        progs.append(["wide", 0, False, [["w", "%s %d" % (rng.choice(MSGS[:12]), k), rng.choice([None, 0, 1, 2])]
                                         for k in range(rng.choice([33, 65, 101, 129, 257, 513, 1025, 1500]))]])
    return {"progs": progs, "async": [rng.randrange(len(progs)), rng.randrange(10**6)] if rng.random() < 0.4 else None}


# -- reference model ---------------------------------------------------------------------------------------------------
class Stop(Exception):
    """An abort or exception travelling through the model."""

    def __init__(self, kind, payload):
        self.kind, self.payload = kind, payload


BASES = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit, "ValueError": ValueError,
         "RuntimeError": RuntimeError, "KeyError": KeyError, "AssertionError": AssertionError, "RecursionError": RecursionError,
         "OSError": OSError, "StopIteration": StopIteration, "MemoryError": MemoryError}


def exc(name, msg):
    return BASES[name]() if msg is None else BASES[name](msg)


def m_tree(t):
    kids = [m_tree(x) for x in t[2]]
    return [t[0], max([t[1]] + [k[1] for k in kids]), kids]


def m_append(node, child):
    node[2].append(child)
    node[1] = max(node[1], child[1])


def m_run(ops, node):
    for op in ops:
        k = op[0]
        if k == "w":
            m_append(node, [op[1], op[2] or 0, []])
        elif k == "wt":
            m_append(node, m_tree(op[1]))
        elif k == "a":
            raise Stop("abort", [op[1], 2 if op[2] is None else op[2], []])
        elif k == "at":
            raise Stop("abort", m_tree(op[1]))
        elif k == "r":
            raise Stop("exc", (op[1], op[2]))
        elif k == "t":
            try:
                m_run(op[2], node)
            except Stop as e:
                if e.kind == "abort" or not issubclass(BASES[e.payload[0]], BASES[op[1]]):
                    raise
                m_run(op[3], node)
        elif k == "f":
            try:
                m_run(op[1], node)
            finally:
                m_run(op[2], node)
        else:
            m_step(op, node)


def m_step(op, parent):
    _, msg, level, catch, ops = op
    node = [msg, level, []]
    try:
        m_run(ops, node)
    except Stop as e:
        if e.kind == "abort":
            m_append(node, e.payload)
        elif catch and issubclass(BASES[e.payload[0]], Exception):
            m_append(node, [("contains", e.payload[1] or ""), 3, []])
        else:
            raise
    if parent is not None:
        m_append(parent, node)
    return node


def same(got, want):
    """Where a report differs from the model."""
    m = want[0]
    if isinstance(m, tuple):
        if m[1] not in got[0] and repr(m[1]) not in got[0]:
            return f"{got[0]!r:.80} does not tell the exception {m[1]!r:.60}"
    elif got[0] != m:
        return f"entry {got[0]!r:.80} instead of {m!r:.80}"
    if len(got[2]) != len(want[2]):
        return f"{len(got[2])} entries under {got[0]!r:.60} instead of {len(want[2])}"
    for a, b in zip(got[2], want[2]):
        d = same(a, b)
        if d:
            return d
    if got[1] != want[1]:
        return f"severity of {got[0]!r:.60} is {got[1]} instead of {want[1]}"
    return None


# -- the real thing -------------------------------------------------------------------------------------------------------
def build(rs, t):
    r = rs.AasTestResult(t[0], rs.Level(t[1]))
    for x in t[2]:
        r.append(build(rs, x))
    return r


def exec_ops(rs, ops):
    for op in ops:
        k = op[0]
        if k == "w":
            rs.write(op[1] if op[2] is None else rs.AasTestResult(op[1], rs.Level(op[2])))
        elif k == "wt":
            rs.write(build(rs, op[1]))
        elif k == "a":
            rs.abort(op[1] if op[2] is None else rs.AasTestResult(op[1], rs.Level(op[2])))
        elif k == "at":
            rs.abort(build(rs, op[1]))
        elif k == "r":
            raise exc(op[1], op[2])
        elif k == "t":
            try:
                exec_ops(rs, op[2])
            except rs.ResultException:
                raise
            except BASES[op[1]]:
                exec_ops(rs, op[3])
        elif k == "f":
            try:
                exec_ops(rs, op[1])
            finally:
                exec_ops(rs, op[2])
        else:
            exec_step(rs, op)


def exec_step(rs, op, box=None):
    _, msg, level, catch, ops = op
    with rs.start(rs.AasTestResult(msg, rs.Level(level)) if level else msg, catch_all_exceptions=catch) as result:
        if box is not None:
            box.append(result)
        exec_ops(rs, ops)


class Async:
    """Raises KeyboardInterrupt at the k-th line executed in the recording code."""

    def __init__(self, k, fname):
        self.k, self.fname, self.n, self.where = k, fname, 0, None

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != self.fname:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n - 1 == self.k:
                self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                sys.settrace(None)
                raise KeyboardInterrupt("sim")
        return self.line


def exec_prog(rs, prog, a=None):
    """-> (outcome, tree or None)"""
    box = []
    if a is not None:
        sys.settrace(a.trace)
    try:
        exec_step(rs, ["s"] + prog, box)
        out = ("done",)
    except RunTimeoutTypes:
        raise
    except rs.ResultException:
        out = ("abort escaped",)
    except BaseException as e:
        out = ("raised", type(e).__name__, str(e))
    finally:
        sys.settrace(None)
    return out, (box[0] if box else None)


from sim.harness import RunTimeout as RunTimeoutTypes  # noqa: E402


def lines_count(prog):
    from aas_test_engines import result as rs
    a = Async(-1, rs.__file__)
    exec_prog(rs, prog, a)
    return a.n


class Parser(html.parser.HTMLParser):
    CLS = {"info": 0, "warning": 1, "error": 2, "critical": 3}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.roots, self.text, self.lists = [], [], None, []

    def handle_starttag(self, tag, attrs):
        if tag != "div":
            return
        c = (dict(attrs).get("class") or "").split()
        kind = None
        lv = [self.CLS[x] for x in c if x in self.CLS]
        if lv:
            node = ["", lv[0], []]
            (self.lists[-1] if self.lists else self.roots).append(node)
            self.text = node
            kind = "node"
        elif "sub-results" in c:
            self.lists.append((self.lists[-1] if self.lists else self.roots)[-1][2])
            kind = "list"
        self.stack.append(kind)

    def handle_endtag(self, tag):
        if tag == "div" and self.stack:
            k = self.stack.pop()
            if k == "node":
                self.text = None
            elif k == "list":
                self.lists.pop()

    def handle_data(self, data):
        if self.text is not None:
            self.text[0] += data


def flat(t, depth=0):
    yield depth, t[0], t[1]
    for x in t[2]:
        yield from flat(x, depth + 1)


def renderings(rs, r):
    t = rn_tree(r)
    d = r.to_dict()
    wire = json.loads(json.dumps(d))

    def of(x):
        return [x["m"], x["l"], [of(y) for y in x["s"]]]
    e = same(of(wire), t)
    if e:
        return f"structured rendering: {e}"
    e = same(rn_tree(rs.AasTestResult.from_json(wire)), t)
    if e:
        return f"restored report: {e}"
    lines = list(r.to_lines())
    want = list(flat(t))
    if len(lines) != len(want):
        return f"text rendering has {len(lines)} entries instead of {len(want)}"
    colors = {}
    for ln, (depth, msg, lv) in zip(lines, want):
        ind = "   " * depth
        m = re.match(r"( *)(\x1b\[[0-9;]*m)", ln)
        if not m or len(m.group(1)) != len(ind):
            return f"text rendering: {ln!r:.80} is not at depth {depth}"
        if ln[m.end():] not in (msg + "\x1b[0m",):
            return f"text rendering: {ln!r:.80} does not show {msg!r:.60}"
        if colors.setdefault(lv, m.group(2)) != m.group(2):
            return f"text rendering: severity {lv} shown in two ways"
    if len(set(colors.values())) != len(colors):
        return f"text rendering: two severities are shown in the same way"
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r.dump()
    if out.getvalue() != "".join(x + "\n" for x in lines):
        return "dump() prints something else than the text rendering"
    p = Parser()
    p.feed(r.to_html())
    p.close()
    if len(p.roots) != 1:
        return f"HTML rendering has {len(p.roots)} roots"
    e = same(p.roots[0], t)
    if e:
        return f"HTML rendering: {e}"
    if any(p.stack):
        return "HTML rendering is not closed"
    if r.ok() != (t[1] <= 1):
        return f"ok() is {r.ok()} at severity {t[1]}"
    return None


def rn_tree(r):
    return [r.message, r.level.value, [rn_tree(x) for x in r.sub_results]]


def run(scn, ctx):
    hit, pos = scn["async"] or (None, None)
    total = 0
    if scn["async"]:
        st = pristine(("c08", jdump(scn["progs"][hit % len(scn["progs"])])), lines_count, scn["progs"][hit % len(scn["progs"])])
        total = max(1, st)
        hit %= len(scn["progs"])
        from sim import harness
        harness.BASE.pop(("c08", jdump(scn["progs"][hit])), None)
        harness._new_base.clear()
    from aas_test_engines import result as rs
    ctx.shape = ("async" if scn["async"] else "sync", len(scn["progs"]))
    for i, prog in enumerate(scn["progs"]):
        ctx.steps += 1
        if scn["async"] and i == hit:
            a = Async(pos % total, rs.__file__)
            out, r = exec_prog(rs, prog, a)
            if a.where is None:
                continue
            ctx.fired["async_interrupt"] += 1
            ctx.note(a.where, out)
            ctx.shape = ("async", a.where)
            # a program may itself handle interrupts raised inside it
            if out[:2] != ("raised", "KeyboardInterrupt") and not has_handler(prog[3]):
                return viol("interrupt", f"an interrupt at {a.where} did not reach the caller but ended in {out}")
            continue
        want_out, want = ("done",), None
        try:
            want = m_step(["s"] + prog, None)
        except Stop as e:
            want_out = ("raised", e.payload[0], str(exc(*e.payload)))
        out, r = exec_prog(rs, prog)
        ctx.note(out, rn_tree(r) if r is not None else None)
        for k in count_kinds(prog[3]):
            ctx.fired[k] += 1
        pre = "" if i == 0 else f"after {i} other reports: "
        if out != want_out:
            return viol("outcome", f"{pre}a report ended in {out} instead of {want_out}")
        if want is not None:
            e = same(rn_tree(r), want)
            if e:
                return viol("report", f"{pre}{e}")
            e = renderings(rs, r)
            if e:
                return viol("rendering", f"{pre}{e}")
        try:
            rs.write("nothing is open")
            if not scn["async"]:
                return viol("leak", f"{pre}a step is still open after the report is complete")
        except RuntimeError:
            pass
    return None


def has_handler(ops):
    return any(op[0] in "tf" or (op[0] == "s" and has_handler(op[4])) for op in ops)


def count_kinds(ops):
    for op in ops:
        if op[0] == "a" or op[0] == "at":
            yield "abort"
        elif op[0] == "r":
            yield "raise" if op[1] in EXC else "interrupt"
        elif op[0] == "t":
            yield from count_kinds(op[2])
            yield from count_kinds(op[3])
        elif op[0] == "f":
            yield from count_kinds(op[1])
            yield from count_kinds(op[2])
        elif op[0] == "s":
            yield from count_kinds(op[4])


def shrink(scn):
    for c in ddmin_candidates(scn["progs"]):
        if c:
            yield {**scn, "progs": c}

    def smaller(ops):
        for c in ddmin_candidates(ops):
            yield c
        for i, op in enumerate(ops):
            if op[0] == "s":
                for c in smaller(op[4]):
                    yield ops[:i] + [op[:4] + [c]] + ops[i + 1:]
                yield ops[:i] + op[4] + ops[i + 1:]
                if op[1] != "s":
                    yield ops[:i] + [["s", "s"] + op[2:]] + ops[i + 1:]
            elif op[0] == "t":
                for c in smaller(op[2]):
                    yield ops[:i] + [["t", op[1], c, op[3]]] + ops[i + 1:]
                for c in smaller(op[3]):
                    yield ops[:i] + [op[:3] + [c]] + ops[i + 1:]
            elif op[0] == "f":
                for k in (1, 2):
                    for c in smaller(op[k]):
                        yield ops[:i] + [op[:k] + [c] + op[k + 1:]] + ops[i + 1:]
    for i, p in enumerate(scn["progs"]):
        for c in smaller(p[3]):
            yield {**scn, "progs": scn["progs"][:i] + [p[:3] + [c]] + scn["progs"][i + 1:]}
