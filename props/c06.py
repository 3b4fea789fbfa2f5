import contextlib
import io
import sys
from urllib.parse import urlsplit

from .common import *

ID = "C06"
RUNS = {"quick": 1600, "thorough": 24000}
RULE = ("seeded host form (scheme, port, base path, trailing slash), path prefix to remove, header set, TLS verification x certificate, kind "
        "of client (plain, command line, subclass which adds to or replaces the sending) x profile x dataset x filter x fault sequence; "
        "every request arriving at the simulated server is compared with the one the default configuration sends at that point; "
        "distinct = different trace hash")
KINDS = tuple(k for k in FAIL + ANSWER if not k.startswith("redirect"))

HEADERS = [["Authorization", "Bearer abc.def-ghi"], ["X-Api-Key", "k=1;v:2"], ["User-Agent", "my agent/1.0"],
           ["Accept", "application/json"], ["accept", "Text/JSON;q=0.9, */*"], ["Accept-Encoding", "identity"], ["Cookie", "a=b"], ["content-type", "text/x-own"], ["Content-Type", "application/x"],
           ["x-lower", "1"], ["X-Long", "v" * 500], ["X-Empty", ""], ["Connection", "close"], ["X-Tenant", "t 1, t 2"],
           ["X-Forwarded-For", "10.0.0.1"], ["X-Forwarded-Proto", "https"], ["Forwarded", "for=10.0.0.1"], ["Edc-Bpn", "BPNL000000000000"], ["Referer", "http://s.sim/"],
           ["Origin", "http://o.sim"], ["Proxy-Authorization", "Basic eDp5"], ["Accept-Language", "de-DE, en;q=0.5"], ["Cache-Control", "no-cache"],
           ["If-None-Match", "\"x\""], ["X-Trace", "a:b:c"], ["authorization", "Basic eDp5=="], ["Range", "bytes=0-"], ["DNT", "1"], ["X-Quote", "\"q\\\"'"]]


def gen(rng, i, tier):
    p, key = pool_pick(rng, i)
    https = rng.random() < 0.35
    port = rng.choice([None, None, None, 8080, 8443, 1234])
    scn = {"profile": p, "ds": key, "https": https, "port": port,
           "base": rng.choice(["", "", "/", "/api", "/api/", "/a/b/c", "/v3.0/", "/aas", "/submodels/", "/x_y-z~1", "/shells", "/API/V3", "/Api-AAS/"]),
           "prefix": rng.choice(["none", "none", "own", "own", "part", "deep", "other"]), "pseed": rng.randrange(10**6),
           "headers": rng.sample(HEADERS, rng.choice([0, 0, 1, 2, 4, 8])),
           "verify": rng.random() < 0.5, "cert": rng.choice(["good", "good", "bad"]),
           "client": rng.choice(["plain", "plain", "cli", "adds", "adds", "replaces"]),
           "op": rng.randrange(10**6) if rng.random() < 0.75 else None, "faults": []}
    scn["headers"] = list({k.lower(): [k, v] for k, v in scn["headers"]}.values())      # names do not depend on case
    if rng.random() < 0.4:
        scn["faults"] = [[rng.randrange(10**6), gen_fault(rng, KINDS)] for _ in range(rng.choice([1, 2, 5]))]
    elif rng.random() < 0.3 and scn["client"] != "replaces":
        scn["moved"] = [rng.choice([307, 308]), rng.choice([1, 2, 5])]         # redirects of every n-th request within the same server
    return scn


def pick_prefix(scn, targets):
    r = random.Random(scn["pseed"])
    k = scn["prefix"]
    paths = sorted({t.partition("?")[0] for t in targets if t.startswith("/") and t != "/"})
    if k == "none" or not paths:
        return ""
    if k == "own":
        cand = {"aas": "/aas", "sm": "/submodel"}.get(scn["profile"])
        if cand is None:
            cand = "/" + "/".join(r.choice(paths).split("/")[1:3])
    elif k == "part":
        t = r.choice(paths)
        cand = t[:r.randrange(2, len(t) + 1)]
    elif k == "deep":
        seg = r.choice(paths).split("/")[1:]
        cand = "/" + "/".join(seg[:r.randrange(1, len(seg) + 1)])
    else:
        cand = r.choice(["/nope", "/api", "/she", "shells", "/AAS", "/%20", "/s"])
    # where the prefix ends right before the query, the contract does not say whether it applies
    if cand.endswith("/") or any(t.startswith(cand + "?") for t in targets):
        return ""
    return cand


def strip(t, prefix):
    if prefix and (t == prefix or t.startswith(prefix + "/")):
        return t[len(prefix):]
    return t


def base_run(p, key, op, faults):
    o = rn.check_server(p, ds(key), {"superset": True}, faults=faults, flt=op)
    if o.tree is None:
        return None
    return {"by_conn": {e["idx"]: (e["req"] or "").partition(" ")[2] or None for e in o.host.conn_log}, "conns": o.conns}


MOVED = "/__moved/"
REDIRECT_DROPS = ("cookie", "proxy-authorization")        # the HTTP library never repeats these at the new location


class Server:
    """Answers the n-th connection as the reference server answers the default configuration's n-th request."""

    def __init__(self, ref, expect, moved=None):
        self.ref, self.expect, self.moved, self.wrong, self.follow, self.later = ref, expect, moved, [], 0, {}

    def __call__(self, req):
        if req.target in self.later:
            self.follow += 1
            return self.later.pop(req.target)
        idx = req.conn - self.follow
        want = self.expect(idx)
        if want is None or want[1] != req.target:
            self.wrong.append((req.conn, req.target, want and want[1]))
            return wd.Resp(404, b"{}")
        save, req.target = req.target, want[0]
        try:
            resp = self.ref(req)
        finally:
            req.target = save
        if self.moved and idx % self.moved[1] == 0:
            loc = f"{MOVED}{idx}"
            self.later[loc] = resp
            return wd.Resp(self.moved[0], b"", [("Location", loc)])
        return resp


def run(scn, ctx):
    from aas_test_engines import http
    p, key = scn["profile"], scn["ds"]
    try:
        if scn["op"] is None:
            op, n = None, full(p, key, {"superset": True}).conns
        else:
            s = solos(p, key, {"superset": True})
            op = scn["op"] if isinstance(scn["op"], str) else sorted(s)[scn["op"] % len(s)]
            n = s[op].conns
    except BaselineBroken as e:
        return viol("baseline", str(e))
    faults = place(scn["faults"], n, first=1)
    b = pristine(("c06", p, tuple(key), op, jdump(faults)), base_run, p, key, op, faults)
    if b is None:
        return viol("baseline", f"{p}/{op}: the check with default configuration and faults raised")
    targets = [t for t in b["by_conn"].values() if t]
    prefix = pick_prefix(scn, targets)
    scheme = "https" if scn["https"] else "http"
    port = scn["port"]
    hostport = "s.sim" + (f":{port}" if port else "")
    basepath = scn["base"].rstrip("/") if scn["base"].endswith("/") else scn["base"]
    url = f"{scheme}://{hostport}{scn['base']}"

    def expect(idx):
        t = b["by_conn"].get(idx)
        if t is None:
            return None
        # the default configuration asks for "/" where the engine asks for the empty path
        logical = "" if idx == 0 else t
        w = basepath + strip(logical, prefix)
        if not w.startswith("/"):
            w = "/" + w
        return t, w
    ref = RefServer(p, ds(key), {"superset": True})
    srv = Server(ref, expect, scn.get("moved"))
    headers = dict((k, v) for k, v in scn["headers"])
    calls = []
    dp = 443 if scn["https"] else 80
    kw = {"ports": () if scn["https"] else (port or 80,), "tls_ports": (port or 443,) if scn["https"] else (), "cert": scn["cert"],
          "faults": faults, "flt": op, "handler": srv}
    ckw = {"verify": scn["verify"], "remove_path_prefix": prefix, "additional_headers": headers}
    snapshot = dict(headers)

    class Adds(http.HttpClient):
        def __init__(self, url, token, **kw):
            super().__init__(url, **kw)
            self.token = token

        def send(self, request):
            calls.append(self.token)
            request.headers["X-Sim-Token"] = f"{self.token}-{len(calls)}"
            return super().send(request)

    class Replaces(http.HttpClient):
        def send(self, request):
            import requests
            calls.append(1)
            idx = len(calls) - 1
            t = b["by_conn"].get(idx, "missing")
            got = "".join(self.prefixes) + request.make_url()
            if (got or "/") != (requests.utils.requote_uri(got) or "/"):
                got = requests.utils.requote_uri(got)
            if t != "missing" and t is not None and (got or "/") != t:
                srv.wrong.append((idx, got, t))
            r = requests.Response()
            resp = ref(wd.Req("GET", t or "/", [], b"", "s.sim", 80, idx))
            r.status_code, r._content = resp.status, resp.body
            return r
    client = None
    cli = scn["client"]
    if cli == "replaces":
        kw["faults"] = {}
        b = pristine(("c06", p, tuple(key), op, "{}"), base_run, p, key, op, {})
        ckw["remove_path_prefix"] = prefix = ""
        client = Replaces(url, **ckw)
    elif cli == "adds":
        client = Adds(url, "tok", **ckw)
    if cli == "cli":
        o = run_cli(scn, p, url, prefix, headers, op, kw)
    else:
        o = rn.check_server(p, ds(key), {"superset": True}, client=client or http.HttpClient(url, **ckw), **kw)
    ctx.saw(o)
    ctx.fired["tls"] += len(o.world.tls)
    ctx.shape = (p, op, url, prefix, cli, scn["verify"], scn["cert"])
    what = f"{p}{'/' + op if op else ''} at {url} ({cli} client)"
    if cli != "cli" and o.tree is None:
        return viol("raised", f"{what}: the check {o.verdict()}")
    if headers != snapshot:
        return viol("headers-modified", f"{what}: the caller's headers were modified: {headers}")
    if o.world.unknown_hosts:
        return viol("host", f"{what}: contacts {o.world.unknown_hosts[0]}")
    if cli == "replaces":
        if o.conns:
            return viol("bypass", f"{what}: {o.conns} requests bypass the client's send()")
        if srv.wrong:
            return viol("path", f"{what}: {srv.wrong[0][1]!r} handed to send() instead of {srv.wrong[0][2]!r}")
        if len(calls) != b["conns"]:
            return viol("bypass", f"{what}: send() called {len(calls)} times instead of {b['conns']}")
        return None
    if any(v != scn["verify"] for _, v in o.world.tls):
        return viol("verify", f"{what}: certificate verification is {not scn['verify']} though configured {scn['verify']}")
    if scn["https"] and scn["verify"] and scn["cert"] == "bad":
        if o.log:
            return viol("verify", f"{what}: sends requests to a server whose certificate is not valid")
        if o.tree is not None and o.tree[1] < 2:
            return viol("verify", f"{what}: reported compliant though the certificate is not valid")
        return None
    if srv.wrong:
        i, got, want = srv.wrong[0]
        return viol("target", f"{what}, prefix {prefix!r} removed: connection {i} asks for {got!r} instead of {want!r}")
    if srv.follow:
        ctx.fired["redirect"] += srv.follow
    if o.conns != b["conns"] + srv.follow:
        return viol("count", f"{what}, prefix {prefix!r} removed: {o.conns} connections instead of {b['conns']}")
    for i, req in enumerate(o.host.log):
        if req.method != "GET" or req.body or (req.header("Content-Length") or "0") != "0" or req.header("Transfer-Encoding"):
            return viol("method", f"{what}: request {i} is {req.method} with body {req.body[:60]!r}")
        hh = req.header("Host")
        if hh not in (hostport, f"s.sim:{dp}" if port is None else hostport):
            return viol("host", f"{what}: request {i} has Host {hh}")
        for k, v in headers.items():
            if k.lower() in REDIRECT_DROPS and req.target.startswith(MOVED):
                continue
            vals = [y for x, y in req.headers if x.lower() == k.lower()]
            if vals != [v]:
                return viol("header", f"{what}: request {i} ({req.target}) carries {k}: {vals} instead of {v!r}")
        if cli == "adds":
            tok = req.header("X-Sim-Token")
            if tok is None or not tok.startswith("tok-"):
                return viol("bypass", f"{what}: request {i} ({req.target}) did not pass the overridden send()")
    if cli == "adds" and len(calls) != o.conns - srv.follow:
        return viol("bypass", f"{what}: {o.conns} connections, but send() called {len(calls)} times")
    return None


def run_cli(scn, p, url, prefix, headers, op, kw):
    """The same through the command line entry point."""
    from aas_test_engines import __main__ as m
    argv = ["prog", "check_server", url, PROFILES[p]]
    if headers:
        argv += ["--header"] + [f"{k}: {v}" for k, v in headers.items()]
    if not scn["verify"]:
        argv.append("--no-verify")
    if op is not None:
        argv += ["--filter", op]
    if prefix:
        argv += [f"--remove-path-prefix={prefix}"]
    h = wd.Host("s.sim", kw["handler"], kw["faults"], {}, cert=kw["cert"], ports=kw["ports"], tls_ports=kw["tls_ports"])
    o = rn.Outcome()
    o.tree = o.mat = o.exc = o.raw = o.errtext = None
    w = wd.World([h])
    old, out = sys.argv, io.StringIO()
    with w, contextlib.redirect_stdout(out):
        sys.argv = argv
        try:
            m.main()
        except SystemExit as e:
            o.errtext = repr(e.code)
        except wd.SimHang as e:
            o.errtext = repr(e)
        except Exception as e:
            o.errtext = rn.scrub(repr(e))
        finally:
            sys.argv = old
    if w.harness_error:
        raise wd.HarnessError(w.harness_error)
    o.hang, o.conns, o.now, o.fired, o.host, o.world, o.digest = w.hang, h.n, w.now, dict(w.fired), h, w, w.digest()
    o.log = [(r.method, r.target, tuple(r.headers), bytes(r.body)) for r in h.log]
    return o


def shrink(scn):
    yield from shrink_dicts(scn, ["faults", "headers"])
    if scn.get("moved"):
        yield {**scn, "moved": None}
    if scn["prefix"] != "none":
        yield {**scn, "prefix": "none"}
    if scn["base"]:
        yield {**scn, "base": ""}
    if scn["port"]:
        yield {**scn, "port": None}
    if scn["https"]:
        yield {**scn, "https": False}
    if scn["client"] == "cli":
        yield {**scn, "client": "plain"}
