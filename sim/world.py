"""The simulated world: virtual clock, simulated TCP, fault injection, event log.

Everything the engine does above the socket (requests, urllib3, http.client, json, zipfile ...) is real code.
Below the socket everything is simulated and decided by the scenario.
"""
import collections
import hashlib
import io
import socket
import ssl
import threading
import time
import zlib
import gzip

REAL_TIME = time.time
REAL_MONO = time.monotonic
REAL_PERF = time.perf_counter
REAL_SLEEP = time.sleep

EPOCH = 1_700_000_000.0


class SimHang(BaseException):
    """The code under test would block for ever (or exceeded its request budget)."""


class HarnessError(BaseException):
    """The harness itself misbehaved. Never a property violation."""


_current = None


def current():
    if _current is None:
        raise HarnessError("network or clock used outside a simulated run")
    return _current


class World:
    def __init__(self, hosts=(), budget=20000, sched=None):
        self.now = 0.0
        self.hosts = {}
        for h in hosts:
            self.add(h)
        self.events = []          # global ordered event log
        self.hang = None
        self.harness_error = None
        self.fired = collections.Counter()
        self.unknown_hosts = []
        self.budget = budget
        self.connections = 0
        self.sched = sched
        self.tls = []

    def add(self, host):
        host.world = self
        self.hosts[host.name] = host

    def __enter__(self):
        global _current
        if _current is not None:
            raise HarnessError("nested worlds")
        _current = self
        return self

    def __exit__(self, *a):
        global _current
        _current = None
        return False

    # -- time -------------------------------------------------------------
    def wait(self, dt):
        """Virtual delay of the calling thread."""
        if self.sched is not None and self.sched.mine():
            self.sched.sleep(dt)
        else:
            self.now += dt

    def yield_point(self, what):
        if self.sched is not None:
            self.sched.yield_point(what)

    def raise_hang(self, why):
        if self.hang is None:
            self.hang = why
        raise SimHang(why)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()

    def log(self, *ev):
        self.events.append(ev)

    # -- connections --------------------------------------------------------
    def connect(self, address, timeout):
        name, port = address[0], address[1]
        if self.hang is not None:
            raise SimHang(self.hang)
        self.yield_point("connect")
        self.connections += 1
        if self.connections > self.budget:
            self.raise_hang(f"more than {self.budget} connections")
        host = self.hosts.get(name)
        if host is None:
            self.unknown_hosts.append(name)
            self.log("dns", name)
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        return host.connect(port, timeout)


class Req:
    __slots__ = ("method", "target", "headers", "body", "host", "port", "tls", "conn", "verify")

    def __init__(self, method, target, headers, body, host, port, conn):
        self.method, self.target, self.headers, self.body = method, target, headers, body
        self.host, self.port, self.conn = host, port, conn
        self.tls = None
        self.verify = None

    def header(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return None

    def key(self):
        return f"{self.method} {self.target}"


class Resp:
    def __init__(self, status=200, body=b"", headers=None, ctype="application/json"):
        self.status, self.body, self.ctype = status, body, ctype
        self.headers = headers or []


REASONS = {200: "OK", 307: "Temporary Redirect", 302: "Found", 400: "Bad Request", 404: "Not Found", 500: "Internal Server Error"}

# connect-phase faults, and response-phase faults which the HTTP library reports as an error for any request
CONNECT_FAULTS = ("refused", "dns", "unreachable", "conn_stall", "emfile")
HARD_FAULTS = CONNECT_FAULTS + (
    "reset_pre", "eof_pre", "reset_hdr", "eof_body", "reset_body", "stall_pre", "stall_hdr", "stall_body",
    "bad_status", "bad_chunk", "bad_gzip", "garbage", "hdr_flood", "hdr_long", "redirect_loop", "redirect_dead",
)
# hard as well, but the library may raise something else than a RequestException
WEIRD_FAULTS = ("redirect_bad", "nomem")
STATUS_FAULTS = ("s500", "s502", "s503", "s500_html")
BODY_FAULTS = ("empty_200", "html_200", "trunc_json", "not_utf8", "huge_int", "deep_json", "nan_json", "scalar_json")


class Host:
    """One simulated server. `handler(Req) -> Resp`. `faults` maps connection index -> fault dict."""

    def __init__(self, name, handler, faults=None, transport=None, ports=(80,), tls_ports=(443,), cert="good",
                 latency=None):
        self.name, self.handler = name, handler
        self.faults = dict(faults or {})
        self.transport = transport or {}
        self.ports, self.tls_ports, self.cert = tuple(ports), tuple(tls_ports), cert
        self.n = 0                 # connections so far
        self.log = []              # requests received, in order
        self.conn_log = []         # one entry per connection attempt
        self.world = None
        self.last_body = b""
        self.hooks = []            # callables(host, req, resp) -> resp, after the handler
        self.rng = None
        self.interrupt_at = None   # connection index that raises KeyboardInterrupt
        self.interrupt_exc = KeyboardInterrupt

    def fault(self, idx):
        return self.faults.get(idx)

    def fire(self, kind):
        self.world.fired[kind] += 1

    def connect(self, port, timeout):
        w = self.world
        idx = self.n
        self.n += 1
        if port not in self.ports and port not in self.tls_ports:
            w.log(self.name, idx, "port", port)
            raise ConnectionRefusedError(111, "Connection refused")
        f = self.fault(idx) or {}
        k = f.get("kind")
        entry = {"idx": idx, "fault": k, "req": None}
        self.conn_log.append(entry)
        w.log(self.name, idx, "connect", k)
        if self.interrupt_at is not None and idx == self.interrupt_at:
            self.fire("interrupt")
            raise self.interrupt_exc()
        rtt = self.transport.get("rtt", 0.001)
        if isinstance(timeout, (int, float)) and rtt > timeout:
            stall(w, timeout, "connect takes too long")
        w.wait(rtt)
        if k == "refused":
            self.fire(k)
            raise ConnectionRefusedError(111, "Connection refused")
        if k == "unreachable":
            self.fire(k)
            raise OSError(113, "No route to host")
        if k == "emfile":
            self.fire(k)
            raise OSError(24, "Too many open files")
        if k == "nomem":
            self.fire(k)
            raise MemoryError()
        if k == "dns":
            self.fire(k)
            raise socket.gaierror(socket.EAI_AGAIN, "Temporary failure in name resolution")
        if k == "conn_stall":
            self.fire(k)
            stall(w, timeout, "connect never completes")
        return SimSocket(self, idx, port, timeout, f, entry)


def stall(w, timeout, why):
    if timeout is None or timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        w.raise_hang(f"blocked for ever without a time limit: {why}")
    w.wait(timeout)
    raise TimeoutError("timed out")


class SimSocket:
    def __init__(self, host, idx, port, timeout, fault, entry):
        self.entry = entry
        self.host, self.idx, self.port, self.f = host, idx, port, fault
        self.timeout = None if timeout is socket._GLOBAL_DEFAULT_TIMEOUT else timeout
        self.buf = b""
        self.script = None     # list of (delay, bytes) then terminal
        self.terminal = None
        self.closed = False
        self.family, self.type, self.proto = socket.AF_INET, socket.SOCK_STREAM, 0
        self.tls = None
        self._refs = 0

    # -- socket API used by http.client / urllib3 ---------------------------
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return ("10.0.0.1", self.port)

    def getsockname(self):
        return ("10.0.0.2", 40000 + self.idx % 20000)

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def detach(self):
        return -1

    def fileno(self):
        return -1

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        w = self.host.world
        if w.hang is not None:
            raise SimHang(w.hang)
        w.yield_point("send")
        self.buf += bytes(data)
        head, sep, rest = self.buf.partition(b"\r\n\r\n")
        if not sep:
            return
        lines = head.split(b"\r\n")
        parts = lines[0].decode("latin-1").split(" ")
        hdrs = []
        for ln in lines[1:]:
            k, _, v = ln.decode("latin-1").partition(":")
            hdrs.append((k, v.strip()))
        d = {k.lower(): v for k, v in hdrs}
        if d.get("transfer-encoding", "").lower() == "chunked":
            if not rest.endswith(b"0\r\n\r\n"):
                return
            body = rest
        else:
            n = int(d.get("content-length", "0"))
            if len(rest) < n:
                return
            body = rest[:n]
        self.buf = b""
        req = Req(parts[0], parts[1], hdrs, body, self.host.name, self.port, self.idx)
        req.tls = self.port in self.host.tls_ports
        req.verify = self.tls
        self._serve(req)

    def makefile(self, mode="rb", buffering=None, **kw):
        return io.BufferedReader(SimRaw(self), 65536)

    def recv(self, n, flags=0):
        b = bytearray(n)
        k = SimRaw(self).readinto(b)
        return bytes(b[:k])

    def recv_into(self, b, n=0, flags=0):
        return SimRaw(self).readinto(b)

    # -- server side ----------------------------------------------------------
    def _serve(self, req):
        h, w = self.host, self.host.world
        h.log.append(req)
        self.entry["req"] = req.key()
        w.log(h.name, self.idx, "request", req.key(), tuple(sorted((k.lower(), v) for k, v in req.headers)))
        try:
            resp = h.handler(req)
            for hook in h.hooks:
                resp = hook(h, req, resp) or resp
        except HarnessError:
            raise
        except Exception as e:      # a bug of the reference server
            w.harness_error = w.harness_error or f"reference server failed on {req.key()}: {e!r}"
            raise HarnessError(w.harness_error)
        self.script, self.terminal = self._wire(req, resp)
        h.last_body = resp.body

    def _wire(self, req, resp):
        """Turns a response and the fault of this connection into timed segments and a terminal action."""
        h, t, f = self.host, self.host.transport, self.f
        k = f.get("kind")
        if k in STATUS_FAULTS:
            h.fire(k)
            if k == "s500_html":
                resp = Resp(500, b"<html><body>Internal Server Error</body></html>", ctype="text/html")
            else:
                resp = Resp(int(k[1:]), b'{"messages":[{"text":"simulated"}]}')
        elif k == "status":
            h.fire(k)
            resp = Resp(f["status"], resp.body if f.get("own") else b'{"messages":[{"text":"simulated"}]}', [tuple(x) for x in f.get("headers", ())])
        elif k in BODY_FAULTS:
            h.fire(k)
            if k == "empty_200":
                resp = Resp(200, b"")
            elif k == "html_200":
                resp = Resp(200, b"<html><body>login</body></html>", ctype="text/html")
            elif k == "trunc_json":
                b = resp.body if len(resp.body) > 2 else b'{"a":1}'
                resp = Resp(200, b[: 1 + int(f.get("frac", 0.5) * (len(b) - 2))])
            elif k == "not_utf8":
                resp = Resp(200, b'{"a": "\xff\xfe\x80"}')
            elif k == "huge_int":
                resp = Resp(200, b'{"result": ' + b"9" * 6000 + b"}")
            elif k == "deep_json":
                resp = Resp(200, b"[" * 100000)
            elif k == "nan_json":
                resp = Resp(200, b'{"paging_metadata": NaN, "result": Infinity}')
            elif k == "scalar_json":
                resp = Resp(200, b'"just a string"')
        elif k == "body":
            h.fire(k)
            resp = Resp(f.get("status", 200), f["text"].encode("utf-8", "surrogatepass"))
        elif k == "stale":
            h.fire(k)
            resp = Resp(resp.status, h.last_body)
        elif k in ("redirect_loop", "redirect_dead", "redirect_bad"):
            h.fire(k)
            loc = {"redirect_loop": "http://%s/__loop__" % h.name, "redirect_dead": "http://dead.sim/x",
                   "redirect_bad": f.get("loc", "http://[::1/bad")}[k]
            resp = Resp(302, b"", [("Location", loc)])
        if req.target.endswith("/__loop__"):
            resp = Resp(302, b"", [("Location", "http://%s/__loop__" % h.name)])

        tag = None
        if t.get("extra_headers") and k is None and resp.status == 200:
            # a server which supports conditional requests
            tag = '"%s"' % hashlib.sha1(req.target.encode()).hexdigest()[:12]
            if any(a.lower() == "if-none-match" and tag in b for a, b in req.headers) or any(a.lower() == "if-modified-since" for a, b in req.headers):
                resp = Resp(304, b"")
        body = resp.body
        headers = [("Content-Type", resp.ctype)]
        headers += list(resp.headers)
        if t.get("gzip") and body:
            body = gzip.compress(body, mtime=0)
            headers.append(("Content-Encoding", "gzip"))
        if k == "bad_gzip":
            h.fire(k)
            headers = [x for x in headers if x[0] != "Content-Encoding"] + [("Content-Encoding", "gzip")]
            body = b"\x1f\x8b\x08\x00this is not gzip data at all" + body[:20]
        chunked = bool(t.get("chunked")) or k == "bad_chunk"
        if chunked:
            n = max(1, t.get("chunked") or 7)
            wire = b"".join(b"%x\r\n" % len(body[i:i + n]) + body[i:i + n] + b"\r\n" for i in range(0, len(body), n))
            wire += b"0\r\n\r\n"
            if k == "bad_chunk":
                h.fire(k)
                wire = b"5\r\nhello\r\nZZZ-not-hex\r\nworld" + wire[:5]
            headers.append(("Transfer-Encoding", "chunked"))
        elif t.get("no_length"):
            wire = body
        else:
            wire = body
            headers.append(("Content-Length", str(len(body))))
        headers.append(("Connection", "close"))
        if t.get("extra_headers"):
            headers += [("Date", "Thu, 01 Jan 1970 00:00:00 GMT"), ("Server", "sim"), ("X-Request-Id", str(self.idx)),
                        ("Set-Cookie", "session=abc; Path=/")]
            if tag:
                headers += [("ETag", tag), ("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT"), ("Cache-Control", "max-age=3600")]
        if t.get("header_order"):
            headers = headers[::-1]
        if k == "hdr_flood":
            h.fire(k)
            headers = [("X-H%d" % i, "v") for i in range(150)] + headers
        if k == "hdr_long":
            h.fire(k)
            headers = [("X-Long", "a" * 70000)] + headers
        if t.get("lower_headers"):
            headers = [(a.lower(), b) for a, b in headers]
        head = b"HTTP/1.1 %d %s\r\n" % (resp.status, REASONS.get(resp.status, "Status").encode())
        head += b"".join(a.encode("latin-1") + b": " + b.encode("latin-1") + b"\r\n" for a, b in headers) + b"\r\n"
        if k == "bad_status":
            h.fire(k)
            head = b"HTTP/1.1 abc def\r\n" + head.split(b"\r\n", 1)[1]
        if k == "garbage":
            h.fire(k)
            return [(0.001, b"\x00\x01\x02garbage garbage\r\n\r\n\xff\xff")], "eof"
        data = head + wire
        lat = t.get("latency", 0.002)
        if k == "slow":
            h.fire(k)
            lat += f.get("delay", 5.0)
        terminal = "eof"
        cut = None
        if k in ("reset_pre", "eof_pre", "stall_pre"):
            cut = 0
        elif k in ("reset_hdr", "stall_hdr"):
            cut = 1 + int(f.get("frac", 0.5) * (len(head) - 3))
        elif k in ("eof_body", "reset_body", "stall_body"):
            if not wire:
                cut = 1 + int(f.get("frac", 0.5) * (len(head) - 3))
                if k == "eof_body":
                    cut = 0
            else:
                cut = len(head) + min(len(wire) - 1, int(f.get("frac", 0.5) * len(wire)))
        if cut is not None:
            h.fire(k)
            data = data[:cut]
            terminal = {"reset": "reset", "eof": "eof", "stall": "stall"}[k.split("_")[0]]
        # segmentation
        seg = t.get("segment")
        if seg:
            parts = [data[i:i + seg] for i in range(0, len(data), seg)] if len(data) <= 400 * seg else \
                [data[:seg], data[seg:seg * 2], data[seg * 2:]]
        else:
            parts = [data]
        gap = t.get("gap", 0.0)
        script = []
        for i, p in enumerate(parts):
            if p:
                script.append((lat if i == 0 else gap, p))
        return script, terminal


class SimRaw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        s = self.sock
        w = s.host.world
        if w.hang is not None:
            raise SimHang(w.hang)
        w.yield_point("recv")
        if s.script is None:
            stall(w, s.timeout, "read before the request was complete")
        if s.script:
            delay, data = s.script[0]
            if s.timeout is not None and delay > s.timeout:
                s.script[0] = (delay - s.timeout, data)
                w.wait(s.timeout)
                raise TimeoutError("timed out")
            if delay:
                w.wait(delay)
            n = min(len(b), len(data))
            b[:n] = data[:n]
            if n < len(data):
                s.script[0] = (0.0, data[n:])
            else:
                s.script.pop(0)
            return n
        if s.terminal == "eof":
            return 0
        if s.terminal == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        stall(w, s.timeout, "the peer stops sending")


# ------------------------------------------------------------------------------------------------------------------
_installed = False
CLOCK = {"time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter}


def _vnow():
    return 0.0 if _current is None else _current.now


def install():
    """Installs the seams once per process."""
    global _installed
    if _installed:
        return
    _installed = True
    import urllib3.util.connection as uc
    import urllib3.connection as ucon
    import requests.sessions as rs

    def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, socket_options=None,
                          **kw):
        return current().connect(address, timeout)

    uc.create_connection = create_connection
    socket.create_connection = create_connection

    def no_connect(self, *a):
        raise HarnessError("unsimulated socket connection")

    class GuardedSocket(socket.socket):
        connect = no_connect
        connect_ex = no_connect

    socket.socket = GuardedSocket
    orig_gai = socket.getaddrinfo

    def getaddrinfo(host, port, *a, **kw):
        raise HarnessError("unsimulated name resolution")

    socket.getaddrinfo = getaddrinfo

    def wrap(sock, *, cert_reqs, server_hostname=None, **kw):
        w = current()
        h = sock.host
        required = cert_reqs in (None, ssl.CERT_REQUIRED, "CERT_REQUIRED")
        sock.tls = required
        w.tls.append((h.name, required))
        w.log(h.name, sock.idx, "tls", required)
        if required and h.cert != "good":
            h.fire("tls_bad_cert")
            raise ssl.SSLCertVerificationError(1, "certificate verify failed: self-signed certificate (sim)")
        return ucon._WrappedAndVerifiedSocket(socket=sock, is_verified=required)

    ucon._ssl_wrap_socket_and_match_hostname = wrap

    def sleep(dt):
        if _current is None:
            raise HarnessError("sleep outside a simulated run")
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        _current.wait(dt)

    time.time = lambda: EPOCH + _vnow()
    time.monotonic = lambda: 1000.0 + _vnow()
    time.perf_counter = lambda: 1000.0 + _vnow()
    time.sleep = sleep
    rs.preferred_clock = time.perf_counter
