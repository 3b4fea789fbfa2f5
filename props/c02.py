import json
import copy
import re
from urllib.parse import unquote as dt_unquote

from .common import *
from sim.server import b64d

ID = "C02"
RUNS = {"quick": 7000, "thorough": 90000}
RULE = ("seeded choice of profile, dataset, operation, request of that operation (or every matching request) and deviation "
        "from a catalogue; the answer of an otherwise conformant server is altered; non-trivial = the deviation was actually "
        "delivered; distinct = different trace hash")

UNTYPED = {"GetSubmodel-ValueOnly", "GetSubmodelById-ValueOnly", "GetSubmodelElementByPath-ValueOnly",
           "GetSubmodelElementByPath-Metadata"}
UNTYPED_ITEMS = {"GetAllSubmodelElements-ValueOnly", "GetAllSubmodels-ValueOnly"}
RAW = {"GetThumbnail", "GetFileByPath"}
BY_ID = {"GetAssetAdministrationShellById", "GetAssetAdministrationShellById-Reference", "GetSubmodelById",
         "GetSubmodelById-Metadata", "GetSubmodelById-Reference"}

PAGED = {"GetAllAssetAdministrationShells", "GetAllSubmodelReferences", "GetAllSubmodels", "GetAllSubmodelElements"}

STATUS = ["status", "status5"]
BODY = ["not_json", "empty", "trunc", "scalar"]
TYPED = ["drop", "unknown", "wrong_type", "bad_enum", "null"]
SEM = ["wrong_object", "over_limit", "ignore_idshort", "other_idshort", "nothing", "reject_cursor", "reject_param", "reject_combo",
       "accept_invalid"]

# What the tests of an operation exercise: a server which always deviates in one of these is reported.
LEVEL, EXTENT = ["level=core", "level=deep"], ["extent=withBlobValue", "extent=withoutBlobValue"]
VALID = {"GetAllSubmodelElements": LEVEL + EXTENT, "GetAllSubmodelElements-Path": LEVEL, "GetAllSubmodelElements-ValueOnly": LEVEL,
         "GetSubmodelElementByPath": LEVEL + EXTENT, "GetSubmodelElementByPath-ValueOnly": LEVEL + EXTENT}
INVALID = {"GenerateSerializationByIds": ["aasIds", "submodelIds", "includeConceptDescriptions"],
           "GetAllAssetAdministrationShells": ["assetIds", "limit"], "GetAllAssetAdministrationShells-Reference": ["assetIds", "limit"],
           "GetAllSubmodelElements": ["extent", "level", "limit"], "GetAllSubmodelElements-Metadata": ["limit"],
           "GetAllSubmodelElements-Path": ["level", "limit"], "GetAllSubmodelElements-Reference": ["limit"],
           "GetAllSubmodelElements-ValueOnly": ["level", "limit"], "GetAllSubmodelReferences": ["limit"], "GetAllSubmodels": ["limit"],
           "GetAllSubmodels-Metadata": ["limit"], "GetAllSubmodels-Path": ["limit"], "GetAllSubmodels-Reference": ["limit"],
           "GetAllSubmodels-ValueOnly": ["limit"], "GetAssetAdministrationShellById": ["id"],
           "GetAssetAdministrationShellById-Reference": ["id"], "GetSubmodelById": ["extent", "id", "level"],
           "GetSubmodelById-Metadata": ["id"], "GetSubmodelById-Path": ["id", "level"], "GetSubmodelById-Reference": ["id"],
           "GetSubmodelById-ValueOnly": ["extent", "id", "level"], "GetSubmodelElementByPath": ["extent", "level"],
           "GetSubmodelElementByPath-Path": ["level"], "GetSubmodelElementByPath-ValueOnly": ["extent", "level"]}


def another(rng, v):
    """An identifier close to, but different from v."""
    c = [v + "-other", v.swapcase(), v + " ", " " + v, v[:-1], v + v, v + "\n", v + "=", v + "/", v[::-1]]
    return rng.choice([x for x in c if x and x != v and len(x) <= 2000])


def undecodable(v):
    try:
        b64d(dt_unquote(v)).encode()
        return False
    except Exception:
        return True


def bad_params(path, query):
    """The parameters of a request which no server may accept."""
    out = set()
    for a in query.split("&"):
        n, _, v = a.partition("=")
        if n == "limit":
            bad = not v.isdigit() or int(v) == 0
        elif n == "level":
            bad = v not in ("core", "deep")
        elif n == "extent":
            bad = v not in ("withBlobValue", "withoutBlobValue")
        elif n == "includeConceptDescriptions":
            bad = v not in ("true", "false")
        elif n in ("aasIds", "submodelIds", "assetIds"):
            bad = undecodable(v)
        else:
            bad = False
        if bad:
            out.add(n)
    seg = path.split("/")
    for a, b in zip(seg, seg[1:]):
        if a in ("shells", "submodels") and b and not b.startswith("$") and undecodable(b):
            out.add("id")
    return out


def gen(rng, i, tier):
    p, key = pool_pick(rng, i)
    return {"profile": p, "ds": key, "sopts": {"superset": True, "page": rng.choice([2, 100])},
            "op": rng.randrange(10**6), "req": rng.randrange(10**6), "dev": rng.choice(
                [d for d in STATUS * 2 + BODY * 2 + TYPED * 3 + SEM * 2 if any(could(d, x) for x in OPERATIONS[p])]), "arg": rng.randrange(10**6),
            "transport": gen_transport(rng) if rng.random() < 0.2 else {}}


# required attributes by kind of object, from the metamodel
REQ_MT = {"Submodel": ["id"], "AssetAdministrationShell": ["id", "assetInformation"], "ConceptDescription": ["id"],
          "Property": ["valueType"], "Range": ["valueType"], "Blob": ["contentType"], "File": ["contentType"],
          "Entity": ["entityType"], "BasicEventElement": ["observed", "direction", "state"],
          "RelationshipElement": ["first", "second"], "AnnotatedRelationshipElement": ["first", "second"],
          "SubmodelElementList": ["typeValueListElement"]}
ENUMS = {"entityType", "direction", "state", "typeValueListElement", "assetKind", "valueType", "messageType"}


def walk(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from walk(x, path + (k,))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from walk(x, path + (k,))


def put(doc, path, fn):
    """Deep copy of doc in which fn was applied to the container at path (fn mutates)."""
    doc = copy.deepcopy(doc)
    c = doc
    for k in path:
        c = c[k]
    r = fn(c)
    return doc if r is None else r


def required_keys(d, path):
    out = []
    mt = d.get("modelType")
    out += [k for k in REQ_MT.get(mt, []) if k in d]
    if mt is not None and path and mt not in ("Submodel", "AssetAdministrationShell", "ConceptDescription"):
        out.append("modelType")
    if "keys" in d and "type" in d:
        out += ["keys", "type"]
    if path and len(path) >= 2 and path[-2] == "keys" and "value" in d:
        out += ["type", "value"]
    if "language" in d and "text" in d:
        out += ["language", "text"]
    if "paging_metadata" in d:
        out += ["paging_metadata", "result"]
    if "assetKind" in d:
        out.append("assetKind")
    if "profiles" in d and not path:
        out.append("profiles")
    return [k for k in out if k in d]


def typed_zone(op, path):
    """May the value at path of a successful answer be judged against a declared type?"""
    if op in UNTYPED:
        return False
    if op in UNTYPED_ITEMS and len(path) >= 2 and path[0] == "result":
        return False
    return True


def mutate(op, doc, dev, rng, is_error):
    """A document that deviates from doc, or None."""
    spots = []
    ok = (lambda p: True) if is_error else (lambda p: typed_zone(op, p))
    if dev == "drop":
        if is_error:
            return None
        for path, v in walk(doc):
            if isinstance(v, dict) and ok(path + ("",)):
                spots += [(path, k) for k in required_keys(v, path)]
        if not spots:
            return None
        path, k = rng.choice(spots)
        return put(doc, path, lambda c: c.__delitem__(k))
    if dev == "unknown":
        spots = [p for p, v in walk(doc) if isinstance(v, dict) and ok(p + ("",))]
        if not spots:
            return None
        return put(doc, rng.choice(spots), lambda c: c.__setitem__("xUnknown", "x"))
    if dev == "bad_enum":
        for path, v in walk(doc):
            if isinstance(v, dict) and ok(path + ("",)):
                spots += [(path, k) for k in v if k in ENUMS and isinstance(v[k], str)]
                if "keys" in v and isinstance(v.get("type"), str):
                    spots.append((path, "type"))
                if len(path) >= 2 and path[-2] == "keys" and "type" in v:
                    spots.append((path, "type"))
        if not spots:
            return None
        path, k = rng.choice(spots)
        return put(doc, path, lambda c: c.__setitem__(k, "Bogus"))
    if dev in ("wrong_type", "null"):
        spots = [p for p, v in walk(doc) if p and ok(p)]
        if not spots:
            return None
        path = rng.choice(spots)
        v = doc
        for k in path:
            v = v[k]
        if dev == "null":
            new = None
        elif isinstance(v, str):
            new = rng.choice([5, 1.5, True, [v], {"v": v}])
        elif isinstance(v, bool):
            new = rng.choice(["true", 1, [v]])
        elif isinstance(v, list):
            new = rng.choice(["s", {"0": 1}, 7])
        else:
            new = rng.choice(["s", [v], 7, False])
        return put(doc, path[:-1], lambda c: c.__setitem__(path[-1], new))
    raise AssertionError(dev)


class Deviation:
    """Hook that alters the answer to one request (by position) or to every matching one."""

    def __init__(self, scn, op, base, srv):
        self.op, self.srv = op, srv
        self.dev, self.rng = scn["dev"], random.Random(scn["arg"])
        self.done = 0
        self.unchecked = False               # the answer's status is subject to the recorded finding "status-unchecked"
        self.status = None
        self.what = None
        n = len(base.log)
        # the resource the operation itself is about (what precedes may be preparation)
        self.own = base.log[-1][1].partition("?")[0]
        self.target = None
        self.pick = None
        if self.dev == "reject_param":
            self.pick = self.rng.choice(VALID.get(op) or LEVEL + EXTENT)
        elif self.dev == "reject_combo":
            self.pick = (self.rng.choice(["core", "deep"]), self.rng.choice(["withBlobValue", "withoutBlobValue"]))
        elif self.dev == "accept_invalid":
            self.pick = self.rng.choice(INVALID.get(op, []) + [None])
        elif self.dev == "nothing":
            self.pick = self.rng.choice(["limit", "idShort", "assetIds"] if op.startswith("GetAllAsset") else ["limit"])
        elif self.dev == "other_idshort":
            self.pick = self.rng.choice(["first", "second"])
        if self.dev in SEM:
            self.persistent = True
        else:
            self.persistent = False
            cand = list(range(1, n))
            self.target = cand[scn["req"] % len(cand)] if cand else None

    def deliver(self, status, body, ctype="application/json", what=""):
        self.unchecked = self.cur and (self.unchecked or not self.done)
        self.done += 1
        self.status = status
        self.what = what
        hd = random.Random(len(what) + status).choice([[], [], [("Retry-After", "0")], [("Retry-After", "1")], [("WWW-Authenticate", "Basic realm=x")],
                                                       [("Warning", '199 - "stale"'), ("Age", "100")], [("ETag", '"1"'), ("Cache-Control", "max-age=60")],
                                                       [("X-RateLimit-Remaining", "0")]])
        return wd.Resp(status, body if isinstance(body, bytes) else json.dumps(body).encode(), hd, ctype=ctype)

    def __call__(self, host, req, resp):
        idx = len(host.log) - 1
        if idx == 0:
            return resp                      # the reachability probe belongs to no operation
        if not self.persistent and idx != self.target:
            return resp
        r = self.alter(req, resp)
        return resp if r is None else r

    def is_a(self, path, types):
        """Does the path ending in /$value or the like name an element of one of the types?"""
        seg = [dt_unquote(x) for x in path.split("/")]
        for sm in self.srv.submodels:
            c = self.srv.find(sm.get("submodelElements"), seg[-2])
            if c and c[-1]["modelType"] in types:
                return True
        return False

    def alter(self, req, resp):
        dev, op, rng = self.dev, self.op, self.rng
        path, _, query = req.target.partition("?")
        good = resp.status == 200
        self.cur = False
        raw = op in RAW and (path.endswith("/thumbnail") or path.endswith("/attachment"))
        if raw or op in UNTYPED and path.endswith(("/$value", "/$metadata")):
            lacks = {"GetSubmodelElementByPath-ValueOnly": ("Capability", "Operation"), "GetFileByPath": ("File",)}.get(op)
            self.cur = good or op == "GetThumbnail" or lacks and resp.status == 404 and self.is_a(path, lacks)
        if dev == "status5":
            return self.deliver(rng.choice([500, 501, 502, 503, 503, 504, 505, 507, 508, 511, 520, 599]),
                                rng.choice([b"", b"oops", resp.body, b'{"messages":[]}']), what=f"5xx on {req.target}")
        if raw:
            return None
        if dev == "status":
            if good:
                st = rng.choice([201, 202, 204, 400, 401, 403, 404, 409, 418, 499, 300, 304, 203, 206, 205, 207, 226, 301, 302, 307, 308, 402, 405, 406, 408,
                                 410, 412, 413, 414, 415, 422, 423, 425, 428, 429, 451])
                return self.deliver(st, b"" if st in (204, 304) else resp.body, what=f"{st} instead of 200 on {req.target}")
            st = rng.choice([200, 200, 200, 201, 202, 203, 204, 206, 207, 226, 300, 301, 302, 304, 307, 308])
            return self.deliver(st, b"" if st in (204, 304) else rng.choice([resp.body, b"{}", b"[]"]),
                                what=f"{st} instead of {resp.status} on {req.target}")
        if dev in BODY:
            b = {"not_json": rng.choice([b"<html></html>", b"plain", b"{'a':1}", b"\xff\xfe\x00", b"{}{}", b"{\"a\":1,}"]),
                 "empty": b"", "trunc": resp.body[:max(1, int(len(resp.body) * rng.random() * 0.98))],
                 "scalar": rng.choice([b'"s"', b"5", b"true", b"null"])}[dev]
            try:
                v = json.loads(b)
                if isinstance(v, (dict, list)):
                    return None
            except ValueError:
                pass
            return self.deliver(resp.status, b, what=f"{dev} body on {req.target}")
        if dev in TYPED:
            doc = json.loads(resp.body)
            zone = op
            if op in UNTYPED | UNTYPED_ITEMS and good and not (path.endswith("$value") or path.endswith("$metadata")):
                zone = ""                    # a typed answer fetched while preparing
            m = mutate(zone, doc, dev, rng, not good)
            if m is None:
                return None
            return self.deliver(resp.status, m, what=f"{dev} on {req.target}")
        if dev == "wrong_object":
            if op not in BY_ID or not good:
                return None
            s = self.srv
            pool = s.shells if op.startswith("GetAsset") else s.submodels
            doc = json.loads(resp.body)
            if op.endswith("-Reference"):
                if "keys" not in doc:
                    return None
                doc["keys"][0]["value"] = another(rng, doc["keys"][0]["value"])
            else:
                if "id" not in doc or "modelType" not in doc:
                    return None
                others = [x for x in pool if x["id"] != doc["id"]]
                if others and rng.random() < 0.5:
                    doc = rng.choice(others)
                else:
                    doc["id"] = another(rng, doc["id"])
            return self.deliver(200, doc, what=f"another object on {req.target}")
        if dev == "over_limit":
            if op.split("-")[0] not in PAGED or path != self.own:
                return None
            if not good or "limit=1" not in query.split("&"):
                return None
            doc = json.loads(resp.body)
            if not doc.get("result"):
                return None
            doc["result"] = doc["result"] + [doc["result"][0]]
            return self.deliver(200, doc, what=f"two entries on {req.target}")
        if dev == "ignore_idshort":
            if op not in ("GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference") \
                    or "idShort=does-not-exist" not in query.split("&"):
                return None
            doc = {"paging_metadata": {}, "result": list(self.srv.shells)}
            if op.endswith("-Reference"):
                doc["result"] = [self.srv.shell_ref(s) for s in self.srv.shells]
            return self.deliver(200, doc, what=f"all shells on {req.target}")
        if dev == "nothing":
            want = {"limit": "limit=1", "idShort": "idShort=", "assetIds": "assetIds="}[self.pick]
            if op.split("-")[0] not in PAGED or path != self.own or not good or not any(
                    x == want or want[-1] == "=" and x.startswith(want) for x in query.split("&")):
                return None
            if not json.loads(resp.body).get("result"):
                return None
            return self.deliver(200, {"paging_metadata": {}, "result": []}, what=f"no entries on {req.target}")
        if dev == "other_idshort":
            if not op.startswith("GetAllAsset") or path != self.own or not good or not any(
                    x.startswith("idShort=") for x in query.split("&")):
                return None
            doc = json.loads(resp.body)
            if not doc.get("result"):
                return None
            e = copy.deepcopy(doc["result"][0])
            if op.endswith("-Reference"):
                e["keys"][0]["value"] += "-other"
            else:
                e["id"] += "-other"
                e["idShort"] += "Other"
            if self.pick == "first":
                doc["result"][0] = e
            else:
                doc["result"].append(e)
            self.later = op.endswith("-Reference") or self.pick == "second"
            return self.deliver(200, doc, what=f"an entry with another idShort on {req.target}")
        if dev == "reject_cursor":
            if not good or "cursor=" not in query:
                return None
            return self.deliver(400, b'{"messages":[]}', what=f"rejected cursor on {req.target}")
        if dev == "reject_param":
            if not good or self.pick not in query.split("&"):
                return None
            return self.deliver(rng.choice([400, 404]), b'{"messages":[]}', what=f"rejected {self.pick} on {req.target}")
        if dev == "reject_combo":
            q = query.split("&")
            if not good or "level=" + self.pick[0] not in q or "extent=" + self.pick[1] not in q:
                return None
            return self.deliver(rng.choice([400, 404]), b'{"messages":[]}', what=f"rejected {self.pick} on {req.target}")
        if dev == "accept_invalid":
            if good or self.pick is not None and self.pick not in bad_params(path, query):
                return None
            return self.deliver(200, rng.choice([b"{}", b"[]", b'{"paging_metadata":{},"result":[]}']),
                                what=f"accepted {req.target}")
        raise AssertionError(dev)


def could(dev, op):
    """Can the deviation occur in this operation at all? (Only steers the search.)"""
    if dev == "wrong_object":
        return op in BY_ID
    if dev in ("over_limit", "reject_cursor"):
        return op.split("-")[0] in PAGED
    if dev == "nothing":
        return op.split("-")[0] in PAGED
    if dev in ("ignore_idshort", "other_idshort"):
        return op.startswith("GetAllAssetAdministrationShells")
    if dev == "reject_param":
        return op in VALID
    if dev == "reject_combo":
        return len(VALID.get(op, ())) > 2
    if dev == "accept_invalid":
        return op in INVALID or op == "GetSubmodelElementByPath-Metadata"
    return True


def not_sent(scn, op, d, o):
    """The deviation had no occasion to show. Did the report still announce a test of it?"""
    if scn["dev"] == "reject_param" and d.pick in VALID.get(op, ()) or scn["dev"] == "accept_invalid" and d.pick in INVALID.get(op, ()):
        return viol("not-exercised", f"{op}: no request exercises {d.pick}, a server which always deviates there is not noticed")
    if scn["dev"] in ("nothing", "over_limit", "other_idshort", "ignore_idshort"):
        return viol("not-exercised", f"{op}: no request exercises {scn['dev']} {d.pick}")
    n = op_node(o, op) if o.tree is not None else None
    pos = rn.sub(n, "Positive Tests") if n is not None else None
    for c in pos[2] if pos else ():
        t = c[0].strip()
        if c[1] != 0:
            continue
        if scn["dev"] == "reject_cursor" and "using cursor" in t:
            return viol("cursor-not-sent", f"{op}: '{t}' passed but no request carried the cursor")
        if scn["dev"] == "reject_combo":
            m = re.search(r"level=(\w+) and exten[dt]=(\w+)", t)
            if m and m.groups() == d.pick:
                known = op == "GetAllSubmodelElements" and d.pick == ("core", "withBlobValue")
                return viol("combination-not-sent" if known else "announced-not-sent", f"{op}: '{t}' passed but no request combined {d.pick}")
    raise Skip()


def run(scn, ctx):
    p, key, so = scn["profile"], scn["ds"], scn["sopts"]
    try:
        all_solo = solos(p, key, so)
    except BaselineBroken as e:
        return viol("baseline", str(e))
    names = [x for x in sorted(all_solo) if could(scn["dev"], x)]
    if not names:
        raise Skip()
    op = scn["op"] if isinstance(scn["op"], str) else names[scn["op"] % len(names)]
    base = all_solo[op]
    bn = op_node(base, op)
    srv = RefServer(p, ds(key), so)
    d = Deviation(scn, op, base, srv)
    o = rn.check_server(p, ds(key), so, transport=scn["transport"], flt=op, handler=srv, hooks=[d])
    ctx.saw(o)
    ctx.fired[scn["dev"]] += d.done
    ctx.shape = (op, scn["dev"], d.status)
    if not d.done:
        return not_sent(scn, op, d, o)
    if o.tree is None:
        return viol("raised", f"{op}: {d.what}: check {o.verdict()}")
    n = op_node(o, op)
    if n is None:
        return viol("not-reported", f"{op}: {d.what}: operation is not in the report")
    v = judge(scn, op, d, o, n, bn)
    if v is not None and scn["dev"] == "other_idshort" and d.later and v["key"] == "accepted:other_idshort":
        v["key"] = "idshort-entries"
    if v is not None and d.unchecked and v["key"] in ("accepted:status", "accepted:status5", "accepted:accept_invalid", "accepted:reject_param",
                                                  "accepted:reject_combo", "not-critical") + tuple(
            "accepted:" + x for x in TYPED):
        v["key"] = "status-unchecked"
    return v


def judge(scn, op, d, o, n, bn):
    if n[1] < 2:
        return viol(f"accepted:{scn['dev']}", f"{op}: {d.what}: not reported as an error")
    if o.tree[1] < 2:
        return viol("root-ok", f"{op}: {d.what}: the report as a whole is still compliant")
    if scn["dev"] == "status5" and n[1] < 3:
        return viol("not-critical", f"{op}: {d.what}: reported with level {n[1]} only")
    t, bt = o.mat, tally_of(bn)
    setup = rn.sub(n, "Setup")
    if setup is not None and failed(setup):
        if t != (0, 0, 0, 0):
            return viol("tally", f"{op}: {d.what}: preparation failed, tally is {t}")
        return None
    if t[0] + t[1] != bt[0] + bt[1] or t[2] + t[3] != bt[2] + bt[3]:
        return viol("tally-total", f"{op}: {d.what}: tally {t} instead of {bt} on a healthy server: number of tests changed")
    more = t[1] + t[2] - bt[1] - bt[2]
    if more < 1 or (not d.persistent and more != 1):
        return viol("tally", f"{op}: {d.what}: tally {t} instead of {bt} on a healthy server: {more} tests counted as failed")
    return None


def shrink(scn):
    yield from shrink_dicts(scn, ["transport"])
