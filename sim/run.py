"""Running checks inside the simulated world and turning their results into plain data."""
import re
import sys
import signal

from . import world as wd
from .server import RefServer, PROFILES
from . import data as dt

_HEX = re.compile(r"0x[0-9a-fA-F]{6,}")


def scrub(s):
    return _HEX.sub("0x", s)


def tree(result):
    """Result object -> nested tuple (message, level, (children...)), read from the object's public attributes."""
    return (scrub(result.message), result.level.value, tuple(tree(x) for x in result.sub_results))


def mat_tuple(m):
    return (m.valid_accepted, m.valid_rejected, m.invalid_accepted, m.invalid_rejected)


class Outcome:
    """What one server check did."""
    __slots__ = ("tree", "mat", "exc", "hang", "log", "conns", "now", "fired", "digest", "raw", "host", "world", "errtext")

    def plain(self):
        """Drops everything that cannot leave the process."""
        self.exc = None if self.exc is None else True
        self.raw = self.host = self.world = None
        return self

    def verdict(self):
        if self.hang:
            return "hang"
        if self.exc is not None:
            return f"raised {self.errtext}"
        return "ok" if self.tree[1] <= 1 else "not ok"


def check_server(profile, ds, sopts=None, faults=None, transport=None, flt=None, dry=False, host="s.sim", url=None,
                 client_kw=None, client_cls=None, hooks=(), budget=20000, interrupt_at=None, interrupt_exc=None,
                 cert="good", ports=(80,), tls_ports=(443,), handler=None, world=None, conf=None, client=None, tracer=None):
    from aas_test_engines import api, config, http
    h = wd.Host(host, handler or RefServer(profile, ds, sopts), faults, transport, cert=cert, ports=ports, tls_ports=tls_ports)
    h.hooks = list(hooks)
    h.interrupt_at = interrupt_at
    if interrupt_exc is not None:
        h.interrupt_exc = interrupt_exc
    base = (sopts or {}).get("base", "")
    if client is None:
        cls = client_cls or http.HttpClient
        client = cls(url or f"http://{host}{base}", **(client_kw or {}))
    if conf is None:
        # settings the caller does not ask for are left to their defaults, as users do
        ckw = {}
        if flt is not None:
            ckw.update(filter=config.TestCaseFilter(flt), version="3.0")
        if dry:
            ckw["dry"] = True
        conf = config.CheckApiConfig(suite=PROFILES[profile], **ckw)
    o = Outcome()
    o.tree = o.mat = o.exc = o.raw = o.errtext = None
    w = world or wd.World([h], budget=budget)
    if world is not None:
        world.add(h)

    def go():
        try:
            if tracer:
                sys.settrace(tracer)
            try:
                r, m = api.execute_tests(client, conf)
            finally:
                if tracer:
                    sys.settrace(None)
            o.raw = r
            o.tree, o.mat = tree(r), mat_tuple(m)
        except wd.HarnessError:
            raise
        except wd.SimHang as e:
            o.exc = e
            o.errtext = repr(e)
        except BaseException as e:
            o.exc = e
            o.errtext = scrub(repr(e))[:300]
    if world is None:
        with w:
            go()
    else:
        go()
    if w.harness_error:
        raise wd.HarnessError(w.harness_error)
    o.hang = w.hang
    o.log = [(r.method, r.target, tuple(r.headers), bytes(r.body)) for r in h.log]
    o.conns = h.n
    o.now = w.now
    o.fired = dict(w.fired)
    o.digest = w.digest() if world is None else None
    o.host, o.world = h, w
    return o


# -- reading a report -------------------------------------------------------------------------------------------------
def op_nodes(t):
    """[(operation, node)] for the per-operation entries of a report."""
    out = []
    for c in t[2]:
        if c[0].startswith("Checking "):
            out.append((c[0][len("Checking "):], c))
    return out


def sub(node, name):
    for c in node[2]:
        if c[0] == name:
            return c
    return None


def worst(node, depth=0, path=()):
    """Paths of the deepest entries with level >= 2 (for messages)."""
    p = path + (node[0].strip()[:160],)
    if node[1] < 2:
        return []
    r = []
    for c in node[2]:
        r += worst(c, depth + 1, p)
    return r or [" > ".join(p[-3:])]


def reqs(o):
    return [f"{m} {t}" for m, t, _, _ in o.log]
