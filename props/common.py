"""Shared pieces of the server-check properties: scenario parts, baselines, report reading."""
import json
import random

from sim import data as dt, run as rn, world as wd
from sim.harness import Ctx, Skip, pristine, viol, ddmin_candidates, jdump, sha  # noqa: F401
from sim.server import PROFILES, OPERATIONS, RefServer  # noqa: F401

REAL = ["aas_test_engines (all of it)", "requests", "urllib3 (except socket creation and the TLS handshake)", "http.client",
        "json", "fences.ConfusionMatrix"]
STUB = ["TCP sockets (sim.world.SimSocket)", "name resolution", "TLS handshake (policy only)", "clock and sleep (virtual)",
        "the AAS server (sim.server.RefServer, written from the specification)"]
ASSUME = ["the reference server and data generator conform to the AAS specification (they are the oracle for valid answers)",
          "requests/urllib3/http.client behave as installed", "one request per connection (the simulated server closes)"]

PROFS = ["aasrepo", "smrepo", "aas", "sm"]
# [seed, size, rich, full]
POOL = [[101, 1, True, True], [102, 2, True, True], [103, 1, False, True], [104, 2, True, False], [105, 1, True, False],
        [106, 3, True, True]]

_ds = {}


def ds(key):
    k = jdump(key)
    if k not in _ds:
        _ds[k] = dt.dataset(key)
    return _ds[k]


def gen_sopts(rng, superset=True):
    o = {"superset": superset}
    if rng.random() < 0.5:
        o["base"] = rng.choice(["/api", "/v3", "/a/b/c", "/API-v3.0", "/x_y"])
    if rng.random() < 0.5:
        o["json"] = rng.randrange(3)
    if rng.random() < 0.5:
        o["ctype"] = rng.randrange(3)
    if rng.random() < 0.5:
        o["err"] = rng.randrange(3)
    if rng.random() < 0.3:
        o["err_status"] = rng.choice([400, 404, 405, 422])
    if rng.random() < 0.6:
        o["page"] = rng.choice([1, 2, 3, 10, 100])
    if rng.random() < 0.7:
        o["cursor"] = rng.randrange(4)
    if rng.random() < 0.3:
        o["more_profiles"] = True
    return o


def gen_transport(rng, length=True):
    t = {}
    if rng.random() < 0.4:
        t["latency"] = rng.choice([0.0, 0.05, 0.5, 2.0])
    if rng.random() < 0.15:
        t["rtt"] = rng.choice([0.1, 1.5, 4.0, 12.0])       # until a connection is established
    if rng.random() < 0.5:
        t["segment"] = rng.choice([1, 2, 3, 7, 16, 64, 512, 1460])
        t["gap"] = rng.choice([0.0, 0.001, 0.02])
    if rng.random() < 0.3:
        t["gzip"] = True
    r = rng.random()
    if r < 0.3:
        t["chunked"] = rng.choice([1, 3, 8, 50, 1000])
    elif r < 0.45 and length:
        t["no_length"] = True
    for k in ("extra_headers", "header_order", "lower_headers"):
        if rng.random() < 0.3:
            t[k] = True
    return t


def pool_pick(rng, i):
    """(profile, dataset) with an affinity to the worker, so that baselines are shared."""
    c = (i % 8) * 3 + rng.randrange(3)          # 24 classes
    return PROFS[c % 4], POOL[(c // 4) % len(POOL)]


# -- baselines ----------------------------------------------------------------------------------------------------------
def _full(profile, key, sopts, transport):
    return rn.check_server(profile, ds(key), sopts, transport=transport).plain()


def full(profile, key, sopts=None, transport=None):
    """Outcome of an undisturbed, unfiltered check."""
    o = pristine(("full", profile, jdump(key), jdump(sopts or {}), jdump(transport or {})), _full, profile, key, sopts,
                 transport)
    if o.tree is None:
        raise BaselineBroken(f"undisturbed check of profile {profile} {o.verdict()}")
    return o


class BaselineBroken(Exception):
    pass


def _solos(profile, key, sopts, transport, ops):
    return {op: rn.check_server(profile, ds(key), sopts, transport=transport, flt=op).plain() for op in ops}


def report_ops(o):
    return [op for op, _ in rn.op_nodes(o.tree)]


def solos(profile, key, sopts=None, transport=None):
    """Outcome of an undisturbed check restricted to each operation, by operation."""
    ops = report_ops(full(profile, key, sopts, transport))
    r = pristine(("solos", profile, jdump(key), jdump(sopts or {}), jdump(transport or {})), _solos, profile, key, sopts,
                 transport, ops)
    for op, o in r.items():
        if o.tree is None:
            raise BaselineBroken(f"undisturbed check of {op} {o.verdict()}")
        if len(rn.op_nodes(o.tree)) != 1:
            raise BaselineBroken(f"a check filtered to {op} reports {report_ops(o)}")
    return r


def op_node(o, op):
    for k, n in rn.op_nodes(o.tree):
        if k == op:
            return n
    return None


def failed(node):
    return node[1] >= 2


def tally_of(node):
    """(valid accepted, valid rejected, invalid accepted, invalid rejected) read from one operation's entry."""
    neg, pos = rn.sub(node, "Negative Tests"), rn.sub(node, "Positive Tests")
    n = neg[2] if neg else ()
    p = pos[2] if pos else ()
    return (sum(1 for x in p if not failed(x)), sum(1 for x in p if failed(x)),
            sum(1 for x in n if failed(x)), sum(1 for x in n if not failed(x)))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def diff_path(a, b, path=""):
    """Where two report trees first differ."""
    if a is None or b is None:
        return f"{path or '/'}: {'missing' if b is None else 'unexpected'}"
    if a[0] != b[0]:
        return f"{path}: message {a[0]!r:.160} instead of {b[0]!r:.160}"
    p = f"{path}/{a[0].strip()[:60]}"
    for x, y in zip(a[2], b[2]):
        d = diff_path(x, y, p)
        if d:
            return d
    if len(a[2]) != len(b[2]):
        extra = a[2][len(b[2]):] or b[2][len(a[2]):]
        return f"{p}: {len(a[2])} entries instead of {len(b[2])} (first: {extra[0][0]!r:.160})"
    if a[1] != b[1]:
        return f"{p}: level {a[1]} instead of {b[1]}"
    return None


def log_diff(a, b):
    full = a, b
    a, b = [f"{x[0]} {x[1]}" for x in a], [f"{x[0]} {x[1]}" for x in b]
    if a == b:
        for i, (x, y) in enumerate(zip(*full)):
            if x[2:] != y[2:]:
                return f"request {i} ({a[i]}) differs: {str(x[2:])[:200]} instead of {str(y[2:])[:200]}"
        return None
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"request {i} is {x!r} instead of {y!r}"
    return f"{len(a)} requests instead of {len(b)}"


def leaves(node):
    """Entries with a finding (level >= error) of their own, i.e. without such a child."""
    if node[1] < 2:
        return []
    r = []
    for c in node[2]:
        r += leaves(c)
    return r or [node]


def shrink_dicts(scn, keys):
    """Drops entries of the named dict/list members, then the members' values one by one."""
    for k in keys:
        v = scn.get(k)
        if isinstance(v, dict) and v:
            yield {**scn, k: {}}
            for kk in list(v):
                yield {**scn, k: {a: b for a, b in v.items() if a != kk}}
        elif isinstance(v, list) and v:
            for c in ddmin_candidates(v):
                yield {**scn, k: c}


# -- faults ---------------------------------------------------------------------------------------------------------------
FAIL = wd.HARD_FAULTS + wd.WEIRD_FAULTS            # the request fails
ANSWER = wd.STATUS_FAULTS + wd.BODY_FAULTS + ("status",) * 5         # an answer arrives, but a wrong one


def rand_json(rng, depth=0):
    """Arbitrary JSON with a bias towards names and shapes of the metamodel."""
    r = rng.random()
    if depth > 5 or r < 0.3:
        return rng.choice([None, True, False, 0, -1, 1.5, 1e308, 10**30, "", "x", "ü", "\ud800", "\x00", "http://a/b", "a" * 3000,
                           "Property", "ModelReference", "xs:int", "Submodel", "2020-01-01T00:00:00Z", "{}", "%zz", "../..", "$value"])
    if r < 0.5:
        return [rand_json(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    names = ["result", "paging_metadata", "cursor", "id", "idShort", "submodels", "keys", "type", "value", "modelType",
             "assetInformation", "globalAssetId", "submodelElements", "statements", "specificAssetIds", "name", "messages", "text",
             "valueType", "semanticId", "profiles", "embeddedDataSpecifications", "first", "second", "assetKind", "", "xx"]
    return {rng.choice(names): rand_json(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))}


NOTES = ["$schema", "$comment", "$id", "_id", "_comment", "@context", "@type", "modelType", "x", "xmlns", "comment", "id", "idShort"]


def damage(rng, doc):
    """A document with a few places replaced by arbitrary JSON, emptied, dropped or duplicated."""
    doc = json.loads(json.dumps(doc))
    for _ in range(rng.choice([1, 1, 2, 4])):
        spots = []

        def walk(v):
            if isinstance(v, dict):
                for k in v:
                    spots.append((v, k))
                    walk(v[k])
            elif isinstance(v, list):
                for k in range(len(v)):
                    spots.append((v, k))
                    walk(v[k])
        walk(doc)
        if not spots:
            return rand_json(rng)
        c, k = rng.choice(spots)
        m = rng.randrange(6)
        if m == 5 and isinstance(c, dict):
            c[rng.choice(NOTES)] = rng.choice(["x", "https://example.org/schema.json", 1, None, [], {}])
            continue
        if m == 0:
            c[k] = rand_json(rng)
        elif m == 1:
            c[k] = type(c[k])() if c[k] is not None else 0
        elif m == 2:
            del c[k]
        elif m == 3 and isinstance(c, list):
            c.insert(k, c[k])
        else:
            c[k] = [c[k]]
    return doc


def gen_fault(rng, kinds):
    k = rng.choice(kinds)
    f = {"kind": k}
    if k in ("trunc_json", "reset_hdr", "stall_hdr", "eof_body", "reset_body", "stall_body"):
        f["frac"] = round(rng.random(), 3)
    if k == "status":
        f["status"] = rng.choice([200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 304, 305, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413,
                                  414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510,
                                  511, 520, 599, 600, 999] + [401, 403, 404, 405, 408, 413, 414, 425, 429, 500, 501, 502, 503, 504] * 3)
        f["own"] = rng.random() < 0.3
        if rng.random() < 0.25:
            # an overloaded server, which asks the client to come back later
            f["status"] = rng.choice([429, 503, 503, 413, 301, 202])
            f["own"] = True
            f["headers"] = [["Retry-After", rng.choice(["1", "30", "3600", "86400", "99999999", "99999999"])]]
            return f
        f["headers"] = rng.choice([[], [], [], [["Retry-After", rng.choice(["0", "1", "120", "86400", "99999999", "Thu, 01 Jan 1970 00:00:10 GMT", "Fri, 31 Dec 2099 23:59:59 GMT"])]],
                                   [["WWW-Authenticate", "Basic realm=x"]], [["Allow", "POST"]], [["X-RateLimit-Remaining", "0"]]])
    if k == "redirect_bad":
        f["loc"] = rng.choice(["http://[::1/bad", "http://s.sim:99999999/x", "gopher://x/y", "http://a b/",
                               "http://\u00fc..x/", "mailto:x", "http://.../"])
    return f


def place(faults, n, first=0):
    """[[position, fault]] -> {connection index: fault}; positions are reduced modulo the number of connections."""
    m = max(1, n - first)
    return {first + p % m: f for p, f in faults}
