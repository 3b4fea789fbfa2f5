import builtins
import io
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile

from .common import *
from . import c08, c11, c12
from sim import boot, docs

ID = "C13"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("seeded command lines (check_file for JSON, XML and AASX inputs of any quality and model type; check_server for any profile, operation, "
        "filter and dry run; all output formats; wrong commands, options, suites, versions, filters, headers and files) x input faults (standard input, open "
        "errors, read errors at any offset, short reads) x network faults and interrupts at any request x output faults (full disk, closed pipe "
        "and I/O errors after any number of bytes, short writes, encodings which cannot represent the report); a share runs as a real process "
        "with a full device, closed pipe or limited file as output; exit status and output compared with the library's result; distinct = "
        "different trace hash")
REAL = REAL + ["argparse, print, io.TextIOWrapper, io.BufferedWriter", "in a share of the runs: interpreter start and shutdown, kernel files and pipes"]
STUB = STUB + ["raw standard output (accepts the scripted bytes, then fails)", "open() of the checked file when it is to fail",
               "interpreter shutdown (final flush, status 120 if it fails) in the runs which stay in process"]
ASSUME = ASSUME + ["the library's result for the same input is right (C01-C12)", "standard output is open"]

WRONG = [[], ["check"], ["check_file"], ["check_file", "FILE", "--format", "yaml"], ["check_file", "FILE", "--output", "pdf"], ["check_server"],
         ["check_server", "http://h.sim"], ["check_server", "http://h.sim", "nosuchsuite"], ["check_server", "http://h.sim", "Service"],
         ["check_server", "http://h.sim", "SUITE", "--version", "9.9"], ["check_server", "http://h.sim", "SUITE", "--filter", "a~b~c"],
         ["check_server", "http://h.sim", "SUITE", "--header", "nocolon"], ["check_file", "FILE", "--unknown"], ["check_file", "FILE", "FILE"],
         ["check_file", "FILE", "--format", "aasx", "--model_type", "Submodel"], ["check_file", "FILE", "--format", "json", "--model_type", "NoSuchType"],
         ["check_file", "MISSING"], ["check_file", "DIR"], ["check_file", "MISSING", "--format", "json"], ["check_server", "h.sim", "SUITE", "--filter", "GetSubmodel"],
         ["check_server", "http://", "SUITE", "--filter", "*"], ["--help-me"], ["check_server", "http://other.sim", "SUITE"]]


def gen(rng, i, tier):
    scn = {"output": rng.choice(["text", "json", "html", None]), "stdout": {"enc": rng.choice(["utf-8", "utf-8", "ascii", "cp1252", "latin-1"])}}
    r = rng.random()
    if r < 0.07:
        scn["wrong"] = rng.randrange(len(WRONG))
        scn["profile"] = rng.choice(PROFS)
    elif r < 0.62:
        scn["fmt"] = rng.choice(["json", "xml", "aasx"])
        if scn["fmt"] == "aasx":
            p = c11.gen(rng, i, tier)
            while p["read"]:
                p = c11.gen(rng, i, tier)
            if rng.random() < 0.4:
                p["defects"], p["bytes"] = [], []
            scn["doc"] = p
        else:
            p = c12.gen(rng, i, tier)
            while p["fmt"] != scn["fmt"]:
                p = c12.gen(rng, i, tier)
            p["read"], p["open"] = None, "bytes"
            if p.get("deep"):
                p["deep"] = 50
            if rng.random() < 0.4:
                p["bytes"], p["damage"] = [], None
                p["enc"] = "utf-8"
            scn["doc"] = p
        if scn["fmt"] != "aasx" and rng.random() < 0.05:
            scn["many"] = [rng.choice(sorted(MANY)), rng.choice(sorted(MEASURES)), rng.choice([1, 1, 1, 2])]
            scn["doc"].update(model="Environment", bytes=[], damage=None)
        if scn["fmt"] == "json" and rng.random() < 0.08:
            # defects whose findings quote arbitrary text
            scn["odd"] = [rng.randrange(len(c08.MSGS)) for _ in range(rng.choice([1, 1, 2, 5]))]
            scn["doc"].update(model="Environment", bytes=[], damage=None)
        if rng.random() < 0.08:
            scn["stdin"] = rng.choice(["bytes", "chunks"])         # the file is standard input
        q = rng.random()
        if scn.get("stdin"):
            if q < 0.2:
                scn["read"] = [rng.choice([1, 64, 4096]), round(rng.random(), 4)]
        elif q < 0.08:
            scn["open"] = rng.choice([2, 13, 5, 24, 21, 40])
        elif q < 0.18:
            scn["read"] = [rng.choice([1, 64, 4096]), round(rng.random(), 4)]
        elif q < 0.25:
            scn["read"] = [rng.choice([1, 7, 64, 4096]), None]
    else:
        p, key = pool_pick(rng, i)
        names = OPERATIONS[p]
        op = rng.choice(names) if rng.random() < 0.97 else None
        if rng.random() < 0.15 and len(names) > 1:
            keep = rng.sample(names, rng.choice([1, 1, 2]))
            op = rng.choice(["~" + ":".join(x for x in names if x not in keep), "*~" + ":".join(x for x in names if x not in keep),
                             ":".join(keep), ":".join(keep) + "~", ":".join(keep) + "~" + keep[0], "nope", "~*", "*~Get*"])
        scn["server"] = {"profile": p, "ds": key, "op": op, "faults": [], "cut": rng.randrange(10**6) if rng.random() < 0.3 else None,
                         "dry": rng.random() < 0.05}
        q = rng.random()
        if q < 0.35:
            scn["server"]["faults"] = [[rng.randrange(10**6), gen_fault(rng, FAIL + ANSWER)] for _ in range(rng.choice([1, 1, 2, 5]))]
        elif q < 0.43:
            scn["server"]["interrupt"] = [rng.randrange(10**6), "KeyboardInterrupt"]
    q = rng.random()
    if q < 0.4:
        scn["stdout"].update(fault=rng.choice(["ENOSPC", "EPIPE", "EIO", "EFBIG", "EAGAIN", "EDQUOT"]),
                             at=rng.choice([0, 1, rng.randrange(100), rng.randrange(9000), None, None]), frac=round(rng.random(), 4))
        if rng.random() < 0.3:
            scn["stdout"]["tail"] = rng.choice([1, 2, 3])      # all but the last few bytes fit
    elif q < 0.55:
        scn["stdout"]["short"] = rng.choice([1, 2, 7, 100, 4096])
    if rng.random() < 0.2:
        scn["stdout"]["line"] = True
    if rng.random() < 0.025:
        scn["real"] = rng.choice(["full", "pipe", "limit", "none", "none"])
    return scn


class Raw(io.RawIOBase):
    """Standard output as the operating system presents it."""
    ERR = {"ENOSPC": 28, "EPIPE": 32, "EIO": 5, "EFBIG": 27, "EAGAIN": 11, "EDQUOT": 122}

    def __init__(self, limit=None, fault=None, short=None):
        self.data, self.limit, self.fault, self.short, self.fired = b"", limit, fault, short, 0

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, b):
        b = bytes(b)
        n = len(b)
        if self.short:
            n = min(n, self.short)
        if self.fault is not None:
            room = self.limit - len(self.data)
            if room <= 0 and n:
                self.fired += 1
                e = self.ERR[self.fault]
                if e == 11:
                    return None
                raise OSError(e, os.strerror(e) + " (sim)")
            n = min(n, room)
        self.data += b[:n]
        return n


def suite_arg(s):
    """The suite, or a part of its name which no other suite has."""
    full = PROFILES[s["profile"]]
    if s.get("cut") is None:
        return full
    from aas_test_engines import api
    every = list(api.supported_versions()[api.latest_version()])
    a, b = sorted((s["cut"] % len(full), s["cut"] // 1000 % (len(full) + 1)))
    part = full[a:b]
    return part if [x for x in every if part in x] == [full] and not part.startswith("-") else full


def argv_of(scn, path):
    if "wrong" in scn:
        sub = {"FILE": path, "MISSING": path + ".missing", "DIR": os.path.dirname(path), "SUITE": PROFILES[scn["profile"]]}
        return [sub.get(x, x) for x in WRONG[scn["wrong"]]]
    out = ["--output", scn["output"]] if scn["output"] else []
    if "server" in scn:
        s = scn["server"]
        a = ["check_server", "http://h.sim", suite_arg(s)] + out
        if s["op"]:
            a += ["--filter", s["op"]]         # may start with ~
        return a + (["--dry"] if s["dry"] else [])
    a = ["check_file", "-" if scn.get("stdin") else path] + out
    if scn["fmt"] != "aasx":
        a += ["--format", scn["fmt"]]
        if scn["doc"]["model"] != "Environment":
            a += ["--model_type", scn["doc"]["model"]]
    return a


MANY = {     # documents with n defects of the same kind
    "shells": lambda n: {"assetAdministrationShells": [{"modelType": "AssetAdministrationShell"}] * n},
    "attributes": lambda n: {"x%d" % i: "y" for i in range(n)},
    "concepts": lambda n: {"conceptDescriptions": [{"id": "", "modelType": "ConceptDescription"}] * n},
    "names": lambda n: {"submodels": [{"id": "x", "modelType": "Submodel", "submodelElements": [
        {"modelType": "Capability", "idShort": "_%d" % i} for i in range(n)]}]}}


def leaves(t, pred):
    return sum(leaves(x, pred) for x in t[2]) if any(pred(x) for x in t[2]) else int(pred(t))


def nodes(t, pred):
    return int(pred(t)) + sum(nodes(x, pred) for x in t[2])


MEASURES = {"leaf errors": lambda t: leaves(t, lambda x: x[1] > 1), "errors": lambda t: nodes(t, lambda x: x[1] > 1),
            "entries": lambda t: nodes(t, lambda x: True)}


def many(scn, n):
    """The document, sized so that the number of findings (by some measure) is a multiple of 256."""
    kind, measure, times = scn["many"]

    def doc(k):
        if scn["fmt"] == "json":
            return docs.json_bytes(MANY[kind](k))
        return docs.xml_bytes(MANY[kind](k))

    def count(k):
        t, e = library({"fmt": scn["fmt"], "raw": doc(k), "doc": {"model": "Environment"}}, 1)
        return 0 if t is None else MEASURES[measure](t)
    a, b = count(3), count(4)
    size = 256
    if b > a:
        size = next((k for k in range(2, 1100) if (a + (k - 3) * (b - a)) % 256 == 0), 256)
    return doc(size + 256 * (times - 1))


def file_bytes(scn):
    if "raw" in scn:
        return scn["raw"]
    if scn.get("many"):
        return pristine(("c13m", scn["fmt"], tuple(scn["many"])), many, scn, 1)
    if scn.get("odd"):
        return json.dumps({c08.MSGS[k] + "x" * j: "y" for j, k in enumerate(scn["odd"])}).encode()
    if scn["fmt"] == "aasx":
        return c11.package_bytes(scn["doc"])
    b, _ = c12.encode(scn["doc"])
    for d in scn["doc"]["bytes"]:
        b = docs.apply_damage(b, d)
    return b


def host_of(s, n):
    h = wd.Host("h.sim", RefServer(s["profile"], ds(s["ds"]), {"superset": True}), place(s["faults"], n), {})
    if s.get("interrupt"):
        h.interrupt_at = s["interrupt"][0] % n
        h.interrupt_exc = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[s["interrupt"][1]]
    return h


def healthy(profile, key, op):
    return rn.check_server(profile, ds(key), {"superset": True}, flt=op).conns or 1


def conns(s):
    return pristine(("c09n", s["profile"], tuple(s["ds"]), s["op"]), healthy, s["profile"], s["ds"], s["op"])


def library(scn, n):
    """Report of the same check through the library: (tree or None, text of the exception)."""
    from aas_test_engines import api, config, file, http
    if "server" in scn:
        s = scn["server"]
        h = host_of(s, n)
        with wd.World([h]):
            try:
                r, _ = api.execute_tests(http.HttpClient("http://h.sim"), config.CheckApiConfig(
                    suite=PROFILES[s["profile"]], dry=s["dry"], filter=config.TestCaseFilter(s["op"]) if s["op"] else None))
                return rn.tree(r), None
            except (wd.HarnessError, wd.SimHang):
                raise
            except BaseException as e:
                return None, repr(e)
    f = tempfile.TemporaryFile()
    f.write(file_bytes(scn))
    f.seek(0)
    try:
        if scn["fmt"] == "aasx":
            r = file.check_aasx_file(f)
        elif scn["fmt"] == "json":
            r = file.check_json_file(f, model_type=scn["doc"]["model"])
        else:
            r = file.check_xml_file(f, model_type=scn["doc"]["model"])
        return rn.tree(r), None
    except Exception as e:
        return None, repr(e)


def exit_code(e):
    if e is None:
        return 0
    if isinstance(e, SystemExit):
        if e.code is None:
            return 0
        return (e.code & 0xff) if isinstance(e.code, int) else 1
    return 130 if isinstance(e, KeyboardInterrupt) else 1


class Gone(BaseException):
    """os._exit() in the simulated process."""


def in_process(scn, argv, path, n, raw, opened):
    """(exit status, written bytes, world)"""
    from aas_test_engines import __main__ as m
    st = scn["stdout"]
    h = host_of(scn["server"], n) if "server" in scn else None
    w = wd.World([h] if h else [], budget=20000)
    real_open, real_io_open = builtins.open, io.open

    def fake_open(f, mode="r", *a, **kw):
        if f == path and "r" in mode and (scn.get("open") or scn.get("read")):
            if scn.get("open"):
                opened.append("open")
                raise OSError(scn["open"], os.strerror(scn["open"]) + " (sim)", path)
            b = file_bytes(scn)
            ff = docs.FaultyFile(b, scn["read"][0], None if scn["read"][1] is None else int(scn["read"][1] * len(b)), name=path)
            opened.append(ff)
            f = io.BufferedReader(ff, 64)
            return f if "b" in mode else io.TextIOWrapper(f, encoding=kw.get("encoding") or "utf-8")
        return real_open(f, mode, *a, **kw)
    out = io.TextIOWrapper(io.BufferedWriter(raw), encoding=st["enc"], errors="strict", line_buffering=bool(st.get("line")))
    err = io.StringIO()
    saved = sys.argv, sys.stdout, sys.stderr, sys.stdin
    inp = io.StringIO()
    if scn.get("stdin"):
        b = file_bytes(scn)
        r = scn.get("read") or [7 if scn["stdin"] == "chunks" else 1 << 16, None]
        ff = docs.FaultyFile(b, r[0], None if r[1] is None else int(r[1] * len(b)), name="<stdin>",
                             seekable=scn["fmt"] == "aasx")
        opened.append(ff)
        inp = io.TextIOWrapper(io.BufferedReader(ff, 64), encoding="utf-8")
    exc = None
    gone = []
    real_exit = os._exit

    def at_once(status=0):
        gone.append(status)
        raise Gone(status)
    with w:
        os._exit = at_once
        sys.argv, sys.stdout, sys.stderr, sys.stdin = ["aas_test_engines"] + argv, out, err, inp
        builtins.open = io.open = fake_open
        try:
            m.main()
        except (wd.HarnessError, wd.SimHang):
            raise
        except BaseException as e:
            exc = e
        finally:
            so = sys.stdout
            sys.argv, sys.stdout, sys.stderr, sys.stdin = saved
            builtins.open, io.open = real_open, real_io_open
            os._exit = real_exit
    if gone:
        # ends the process at once: what is still buffered is lost
        return gone[0] & 0xff, raw.data, w, err.getvalue()
    code = exit_code(exc)
    try:
        if so is not None and not so.closed:
            so.flush()
        if not out.closed:
            out.flush()
    except Exception:
        code = 120
    raw2 = raw.data
    try:
        out.detach()
    except Exception:
        pass
    return code, raw2, w, err.getvalue()


def real_process(scn, argv, path, n, kind, limit):
    """(exit status, bytes or None): a new interpreter whose standard output is a kernel object."""
    code = ("import sys; sys.path.insert(0, %r); sys.argv0 = sys.argv; from sim import boot; boot.load(); from sim import world as wd; "
            "from props import c13; import json; d = json.loads(sys.argv[1]); w = wd.World([c13.host_of(d[0]['server'], d[2])] if 'server' in d[0] else []); "
            "w.__enter__(); sys.argv = ['aas_test_engines'] + d[1]; from aas_test_engines.__main__ import main; main()" % boot.VERIF)
    env = dict(os.environ, PYTHONHASHSEED="0", SIM_BOOTED="1", PYTHONIOENCODING=scn["stdout"]["enc"])
    d = os.path.dirname(path)
    pre, rd = None, None
    if kind == "full":
        out = os.open("/dev/full", os.O_WRONLY)
    elif kind == "pipe":
        rd, out = os.pipe()
        os.close(rd)
    else:
        out = os.open(os.path.join(d, "out"), os.O_WRONLY | os.O_CREAT, 0o600)
        if kind == "limit":
            def pre():
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        p = subprocess.run([sys.executable, "-B", "-c", code, jdump([scn, argv, n])], stdout=out, stderr=subprocess.PIPE, env=env, cwd=d, preexec_fn=pre)
    finally:
        os.close(out)
    data = None
    if kind in ("limit", "none"):
        with open(os.path.join(d, "out"), "rb") as f:
            data = f.read()
    if b"sim.world.HarnessError" in p.stderr:
        raise wd.HarnessError(p.stderr.decode()[-1500:])
    return p.returncode & 0xff, data


def parse_output(fmt, text, t, enc):
    """None if the output shows exactly the report t, else what differs."""
    def seen(s):
        return s.encode(enc, "backslashreplace").decode(enc)
    if fmt == "json":
        try:
            d = json.loads(text)

            def of(x):
                return (rn.scrub(x["m"]), x["l"], tuple(of(y) for y in x["s"]))
            g = of(d)
        except Exception as e:
            return f"is not a JSON report ({type(e).__name__})"
        return None if g == t else f"differs: {diff_path(g, t)}"
    if fmt == "html":
        p = c08.Parser()
        p.feed(text)
        p.close()
        if len(p.roots) != 1:
            return f"has {len(p.roots)} reports"
        if "</html>" not in text[-200:]:
            return "ends early"

        def tup(x):
            return (x[0], x[1], tuple(tup(y) for y in x[2]))

        def want(x):
            return (seen(x[0]), x[1], tuple(want(y) for y in x[2]))
        g = tup(p.roots[0])
        return None if g == want(t) else f"differs: {diff_path(g, want(t))}"
    pos = 0
    colors = {}
    for depth, msg, lv in c08.flat(t):
        m = re.compile(r" {%d}(\x1b\[[0-9;]*m)" % (3 * depth)).match(text, pos)
        if not m:
            return f"lacks the entry {msg[:80]!r} at depth {depth}"
        e = seen(msg) + "\x1b[0m\n"
        if not text.startswith(e, m.end()):
            return f"shows {text[m.end():m.end() + 80]!r} instead of {msg[:80]!r}"
        if colors.setdefault(lv, m.group(1)) != m.group(1):
            return "shows a severity in two ways"
        pos = m.end() + len(e)
    if len(set(colors.values())) != len(colors):
        return "shows two severities in the same way"
    return None if not text[pos:].strip() else f"has further text {text[pos:pos + 80]!r}"


def run(scn, ctx):
    n = conns(scn["server"]) if "server" in scn else 1
    want = None
    if scn.get("many"):
        file_bytes(scn)
    if "wrong" not in scn:
        want, exc = pristine(("c13", jdump({k: scn[k] for k in ("server", "fmt", "doc", "many", "odd") if k in scn})), library,
                             {k: scn[k] for k in ("server", "fmt", "doc", "many", "odd") if k in scn}, n)
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        return go(scn, ctx, n, want, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(scn, ctx, n, want, d):
    path = os.path.join(d, "input")
    with open(path, "wb") as f:
        f.write(file_bytes(scn) if "fmt" in scn else b"{}")
    argv = argv_of(scn, path)
    st = scn["stdout"]
    total = None
    real = scn.get("real")
    if st.get("fault") or real == "limit":
        # size of the complete output, to place the fault
        probe = Raw()
        code0, data0, w0, _ = in_process({**scn, "stdout": {"enc": st["enc"]}}, argv, path, n, probe, [])
        total = len(data0)
    limit = None
    if st.get("fault") or real == "limit":
        limit = st.get("at") if st.get("at") is not None else int(st.get("frac", 0.5) * (total + 1))
        if st.get("tail"):
            limit = max(0, total - st["tail"])
    opened, fault_done = [], False
    if real:
        if scn.get("open") or scn.get("read") or scn.get("stdin"):
            real = None
    if real:
        code, data = real_process(scn, argv, path, n, real, limit)
        ctx.fired["real_" + real] += 1
        fault_done = real in ("full", "pipe") or (real == "limit" and total > limit)
        if real in ("full", "pipe") and "wrong" in scn:
            fault_done = False
        log_note = (real, code)
        w = None
    else:
        raw = Raw(limit, st.get("fault"), st.get("short"))
        code, data, w, err = in_process(scn, argv, path, n, raw, opened)
        if w.harness_error:
            raise wd.HarnessError(w.harness_error)
        fault_done = bool(raw.fired)
        if fault_done:
            ctx.fired["stdout_" + st["fault"]] += 1
        if st.get("short"):
            ctx.fired["stdout_short_writes"] += 1
        ctx.fired.update(w.fired)
        ctx.sim_s += w.now
        # object addresses in exception texts are not part of the simulation
        log_note = (code, len(data) if fault_done else sha(rn.scrub(data.decode(st["enc"], "replace")).encode("utf-8", "replace")))
    in_fault = [x for x in opened if x == "open" or (hasattr(x, "fired") and x.fired)]
    if in_fault:
        ctx.fired["open_error" if in_fault[0] == "open" else "read_error"] += 1
    ctx.steps += 1
    ctx.note(log_note if "wrong" not in scn else code)
    what = "aas_test_engines " + " ".join("FILE" if x == path else x.replace(d, "DIR") for x in argv)[:160]
    ctx.shape = (scn.get("wrong"), scn.get("fmt"), (scn.get("server") or {}).get("op"), scn["output"], code, bool(in_fault), st.get("fault"), real)
    if w is not None and w.hang:
        return viol("hang", f"{what}: {w.hang}")
    if "wrong" in scn:
        ctx.fired["wrong_arguments"] += 1
        if code == 0:
            return viol("exit", f"{what}: exit status 0 although it cannot be carried out")
        return None
    if fault_done:
        if code == 0:
            return viol("write-failure", f"{what}: exit status 0 although writing the report failed "
                                         f"({real or st['fault']}{'' if limit is None else f' after {limit} of {total} bytes'})")
        return None
    if in_fault or want is None:
        if code == 0:
            return viol("exit", f"{what}: exit status 0 although the check could not be completed")
        return None
    ok = want[1] <= 1
    if (code == 0) != ok:
        return viol("exit", f"{what}: exit status {code} although the report is {'OK' if ok else 'not OK'}")
    if data is None:
        return None
    try:
        text = rn.scrub(data.decode(st["enc"]))
    except UnicodeDecodeError:
        return viol("output", f"{what}: the output is not encoded as {st['enc']}")
    e = parse_output(scn["output"] or "text", text, want, st["enc"])
    if e:
        return viol("output", f"{what}: the output {e}")
    return None


def shrink(scn):
    for k in ("real", "stdin", "open", "read", "many"):
        if scn.get(k) is not None:
            yield {x: y for x, y in scn.items() if x != k}
    st = scn["stdout"]
    for k in ("short", "line", "tail", "fault"):
        if st.get(k) is not None:
            yield {**scn, "stdout": {x: y for x, y in st.items() if x != k}}
    if st["enc"] != "utf-8":
        yield {**scn, "stdout": {**st, "enc": "utf-8"}}
    if "server" in scn:
        s = scn["server"]
        for c in ddmin_candidates(s["faults"]):
            yield {**scn, "server": {**s, "faults": c}}
    if "fmt" in scn:
        for c in (c11 if scn["fmt"] == "aasx" else c12).shrink(scn["doc"]):
            if c.get("read") is None:
                yield {**scn, "doc": c}
