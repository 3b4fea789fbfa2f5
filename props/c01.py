from .common import *

ID = "C01"
RUNS = {"quick": 720, "thorough": 9000}
RULE = ("seeded random valid dataset x server behaviour (base path, JSON style, content type, error style, page size, cursor "
        "encoding) x transport (latency, segmentation, chunking, gzip, redirects, slow answers); distinct = different "
        "trace hash of wire events, report and tally; all runs are non-trivial (a full profile is checked)")
ELEMENT_BY_PATH = ["GetSubmodelElementByPath", "GetSubmodelElementByPath-Metadata", "GetSubmodelElementByPath-ValueOnly",
                   "GetSubmodelElementByPath-Reference", "GetSubmodelElementByPath-Path", "GetFileByPath"]
QUIRKS = ["noshort", "empty", "category"]


def fixed():
    out = []

    def add(p, ds, sup=True):
        out.append({"profile": p, "ds": ds, "sopts": {"superset": True} if sup else {}, "transport": {}, "slow": {}, "redirect": 0})
    for p in PROFS:
        add(p, [1, 1, True, True])
    # the recorded findings
    for p in ("smrepo", "aas", "sm"):
        add(p, [2, 1, True, True], False)
    for seed in (3, 4, 5, 6):
        for q in QUIRKS:
            add("aasrepo", [seed, 3, True, True, [q]])
    return out


def gen(rng, i, tier):
    p = rng.choice(PROFS)
    sup = p == "aasrepo" or rng.random() < 0.85
    key = [rng.randrange(10**6), rng.choice([1, 1, 2, 3]), rng.random() < 0.8, rng.random() < 0.5]
    r = rng.random()
    if r < 0.12:
        key.append([rng.choice(QUIRKS)])
    elif r < 0.3:
        key.append(["values"])
    return {"profile": p, "ds": key,
            "sopts": gen_sopts(rng, sup), "transport": gen_transport(rng),
            "slow": {str(rng.randrange(300)): rng.choice([1.0, 5.0, 20.0, 50.0]) for _ in range(rng.choice([0, 0, 1, 4]))},
            "redirect": rng.choice([0, 0, 0, 301, 302, 307, 308])}


def has_empty(els):
    """Is there a collection or list without content which is reached through collections?"""
    for e in els or []:
        if "idShort" in e and e["modelType"] in ("SubmodelElementCollection", "SubmodelElementList"):
            if "value" not in e or e["modelType"] == "SubmodelElementCollection" and has_empty(e["value"]):
                return True
    return False


def recorded(p, d, so, srv, log):
    """{operation: [(key, where it fails)]}: where the recorded findings show with this server and data, and nowhere else."""
    out = {}

    def put(ops, key, where):
        for op in ops:
            out.setdefault(op, []).append((key, where))
    if not so.get("superset") and p != "aasrepo":
        asked = [t for _, t, _, _ in log if t.split("?")[0].endswith("/shells")]
        if asked:
            put(["GenerateSerializationByIds"], "serialization-setup-shells", "Setup")
        root = [t for _, t, _, _ in log[1:] if t == so.get("base", "") + "/"]
        if p == "aas" and root:
            put([x for x in OPERATIONS["aas"] if "SubmodelElement" in x or x == "GetFileByPath"], "aas-setup-root", "Setup")
    sh = d["shells"][0]
    if p == "aasrepo" and ("idShort" not in sh or "globalAssetId" not in sh["assetInformation"]):
        put(["GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference"], "shell-without-idshort-or-assetid", "Setup")
    sm = d["submodels"][0] if p == "smrepo" else srv.single_sm
    if has_empty(sm.get("submodelElements")):
        put(ELEMENT_BY_PATH, "empty-collection", "Setup")
    if any("category" in c for c in d["cds"]):
        put(["GenerateSerializationByIds"], "concept-category", "AASc-3a-004")
    return out


class Redirecting:
    """Answers a share of the requests with a redirect to the same resource below /moved."""

    def __init__(self, inner, base, status, seed):
        self.inner, self.base, self.status, self.r = inner, base, status, random.Random(seed)

    def __call__(self, req):
        if req.target.startswith("/moved"):
            rest = req.target[6:]
            save, req.target = req.target, rest
            try:
                return self.inner(req)
            finally:
                req.target = save
        if self.r.random() < 0.15:
            return wd.Resp(self.status, b"", [("Location", "/moved" + req.target)])
        return self.inner(req)


def run(scn, ctx):
    p, d, so = scn["profile"], ds(scn["ds"]), scn["sopts"]
    srv = RefServer(p, d, so)
    handler = srv
    if scn["redirect"]:
        handler = Redirecting(srv, so.get("base", ""), scn["redirect"], jdump(scn["ds"]))
    faults = {int(k): {"kind": "slow", "delay": v} for k, v in scn["slow"].items()}
    o = rn.check_server(p, d, so, faults=faults, transport=scn["transport"], handler=handler)
    ctx.saw(o)
    if scn["redirect"]:
        ctx.fired["redirect"] += 1
    ctx.shape = (p, o.mat, o.conns)
    if o.hang or o.exc is not None:
        return viol("raised", f"check of a conformant {p} server {o.verdict()}")
    nodes = dict(rn.op_nodes(o.tree))
    missing = [x for x in OPERATIONS[p] if x not in nodes]
    if missing:
        return viol("missing-operation", f"operations {missing} of {p} are not reported")
    rec = recorded(p, d, so, srv, o.log)
    total = (0, 0, 0, 0)
    hit = None
    for op, n in nodes.items():
        t = tally_of(n)
        total = add(total, t)
        if n[1] >= 2:
            for key, where in rec.get(op, []):
                bad = leaves(n)
                if where == "Setup":
                    same = all(c[1] < 2 or c[0] == "Setup" for c in n[2])
                else:
                    same = all(where in x[0] for x in bad) and t[2] == 0
                if same:
                    hit = hit or (key, f"{op} in {p}: {rn.worst(n)[0]}")
                    break
            else:
                return viol("rejected", f"conformant {p} server rejected: {op}: {rn.worst(n)[0]}", op=op)
        elif t[0] < 1 or t[1] or t[2]:
            return viol("no-test", f"{op} of a conformant {p} server passed with the tally {t}")
    others = [c for c in o.tree[2] if c[1] >= 2 and c[0][len("Checking "):] not in nodes]
    if o.mat != total or others or (o.tree[1] >= 2) != (hit is not None):
        return viol("tally", f"conformant {p} server: tally {o.mat} (valid accepted, valid rejected, invalid accepted, "
                             f"invalid rejected) instead of {total}, level {o.tree[1]}")
    return viol(*hit) if hit else None


def shrink(scn):
    yield from shrink_dicts(scn, ["slow", "transport"])
    if scn["redirect"]:
        yield {**scn, "redirect": 0}
    so = scn["sopts"]
    for k in list(so):
        if k != "superset":
            yield {**scn, "sopts": {a: b for a, b in so.items() if a != k}}
    s = scn["ds"]
    if s[1] > 1:
        yield {**scn, "ds": [s[0], 1] + s[2:]}
    if s[2]:
        yield {**scn, "ds": s[:2] + [False] + s[3:]}
    if len(s) > 4:
        yield {**scn, "ds": s[:4]}
