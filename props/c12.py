import io
import re
from xml.etree import ElementTree

from .common import *
from sim import docs

ID = "C12"
RUNS = {"quick": 7500, "thorough": 200000}
RULE = ("seeded documents of 25 model types (valid, with replaced, emptied, dropped and duplicated places, arbitrary JSON, deeply nested, of another "
        "type than asked for) x JSON or XML x encoding and layout x storage faults on the bytes (truncation at any byte, flipped bits, zeroed, "
        "stale, duplicated, dropped, swapped and inserted blocks; tokens which are wrong or unusual in the language) x binary or text file, short reads, read error at any offset; compared "
        "with well-formedness according to json and expat and with the check of the parsed document; distinct = different trace hash")
REAL = ["aas_test_engines.file and everything below it (parsing, metamodel, constraints, templates)", "json, xml.etree, codecs, io"]
STUB = ["the file (sim.docs.FaultyFile)", "the storage which damages it"]
ASSUME = ["json (without NaN and Infinity) and expat decide what is well-formed", "the data generator makes valid documents"]

ELEMENTS = ["Property", "MultiLanguageProperty", "Range", "Blob", "File", "ReferenceElement", "RelationshipElement", "AnnotatedRelationshipElement",
            "SubmodelElementCollection", "SubmodelElementList", "Entity", "BasicEventElement", "Operation", "Capability"]
MODELS = ["Environment"] * 6 + ["AssetAdministrationShell", "Submodel", "Submodel", "ConceptDescription", "AssetInformation", "Reference", "Key",
                                "Qualifier", "AdministrativeInformation", "Extension", "EmbeddedDataSpecification",
                                "SpecificAssetId"] + ELEMENTS
J_ENC = ["utf-8"] * 6 + ["utf-8-sig", "utf-16", "utf-32", "utf-16-le", "latin-1"]
X_ENC = ["utf-8"] * 6 + ["utf-16", "iso-8859-1", "us-ascii", "utf-8-sig", "none", "bogus", "lie"]
KEYS = docs.KEYS[:7] + [[211, 1, False, False], [212, 1, True, False]]
CATEGORY = [213, 3, True, False, None, ["category"]]          # shows the recorded finding "concept-category"


def fixed():
    return [{"fmt": fmt, "doc": CATEGORY, "model": "Environment", "damage": None, "enc": "utf-8", "style": 0, "bytes": [], "open": "bytes",
             "read": None, "pick": 0} for fmt in ("json", "xml")]


def gen_doc(rng):
    if rng.random() < 0.15:
        return [rng.randrange(20000), 0, False, False, None, ["values"]]
    return rng.choice(KEYS) if rng.random() < 0.4 else [rng.randrange(3000, 8000), rng.choice([0, 0, 1]), True, rng.random() < 0.3]


def gen(rng, i, tier):
    fmt = rng.choice(["json", "xml"])
    scn = {"fmt": fmt, "doc": gen_doc(rng), "model": rng.choice(MODELS), "damage": None, "enc": rng.choice(J_ENC if fmt == "json" else X_ENC),
           "style": rng.randrange(6) if fmt == "json" else rng.randrange(10), "bytes": [], "open": rng.choice(["bytes", "bytes", "buffered", "raw", "text"]), "read": None, "pick": rng.randrange(1000)}
    r = rng.random()
    if scn["doc"][4:] == [None, ["values"]] and rng.random() < 0.8:       # as they are: every value is valid
        return {**scn, "model": rng.choice(["Environment", "Environment", "Submodel"])}
    if r < 0.35:
        scn["damage"] = rng.randrange(10**6)
    elif r < 0.4:
        scn["as"] = rng.choice(MODELS)
    elif r < 0.43:
        scn["deep"] = rng.choice([50, 400, 3000, 100000])
    elif r < 0.46:
        scn["wild"] = rng.randrange(10**6)
    if rng.random() < (0.15 if r < 0.46 else 0.6):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            scn["bytes"].append(docs.gen_damage(rng, 0))
        if rng.random() < 0.3:
            scn["bytes"] = [docs.gen_lexical(rng)]
    if scn["open"] in ("buffered", "raw", "text"):
        scn["read"] = [rng.choice([1, 2, 3, 5, 64, 1000, 100000]), round(rng.random(), 4) if rng.random() < 0.15 else None]
    return scn


def find(e, model, pick):
    """A part of an environment which has the given type."""
    found = []

    def add(d):
        if isinstance(d, dict):
            found.append(d)

    def walk(v, key):
        if isinstance(v, dict):
            if model == v.get("modelType"):
                add(v)
            elif model == "Reference" and "keys" in v and "type" in v:
                add(v)
            elif model == "Key" and key == "keys":
                add(v)
            elif model == "AssetInformation" and key == "assetInformation":
                add(v)
            elif model == "Qualifier" and key == "qualifiers":
                add(v)
            elif model == "AdministrativeInformation" and key == "administration":
                add(v)
            elif model == "Extension" and key == "extensions":
                add(v)
            elif model == "EmbeddedDataSpecification" and key == "embeddedDataSpecifications":
                add(v)
            elif model == "SpecificAssetId" and key == "specificAssetIds":
                add(v)
            for k in v:
                walk(v[k], k)
        elif isinstance(v, list):
            for x in v:
                walk(x, key)
    if model == "Environment":
        return e
    walk(e, None)
    return found[pick % len(found)] if found else None


def encode(scn):
    """(bytes, valid): the document as a storage would hold it without faults."""
    model = scn["model"]
    e = find(docs.env(scn["doc"]), scn.get("as", model), scn["pick"])
    valid = e is not None and scn.get("as", model) == model
    if e is None:
        e = {}
    if scn["damage"] is not None:
        e, valid = damage(random.Random(scn["damage"]), e), False
    if scn.get("wild") is not None:
        e, valid = rand_json(random.Random(scn["wild"])), False
    if scn.get("deep"):
        n = scn["deep"]
        k = scn["pick"] % 3
        if scn["fmt"] == "json":
            return (b"[" * n + b"]" * n, b'{"submodels":' * n + b"1" + b"}" * n,
                    b'{"submodels":[{"modelType":"Submodel","id":"a","submodelElements":[' + b'{"modelType":"SubmodelElementCollection","idShort":"a","value":['
                    * n + b"]}" * n + b"]}]}")[k], False
        ns = b'<environment xmlns="https://admin-shell.io/aas/3/0">'
        inner = (b"<a>" * n + b"</a>" * n, b"<submodels><submodel>" * n + b"</submodel></submodels>" * n,
                 b"<submodels><submodel><id>a</id><submodelElements>" + b"<submodelElementCollection><idShort>a</idShort><value>" * n
                 + b"</value></submodelElementCollection>" * n + b"</submodelElements></submodel></submodels>")[k]
        return ns + inner + b"</environment>", False
    enc = scn["enc"]
    if scn["fmt"] == "json":
        import json
        e = shuffle(random.Random(scn["style"]), e) if scn["style"] >= 3 else e
        s = json.dumps(e, indent=[None, 1, "\t"][scn["style"] % 3], ensure_ascii=scn["style"] % 2 == 0)
        if scn["style"] == 5:
            s = "\r\n \t" + s.replace("\n", "\r\n") + "\n\n"
        try:
            return s.encode(enc), valid
        except UnicodeEncodeError:
            return s.encode("utf-8", "surrogatepass"), False
    try:
        s = docs.xml_bytes(e, model[0].lower() + model[1:]).decode()
    except Exception:
        s, valid = '<?xml version="1.0"?><x>' + re.sub("[^ -~]", "?", str(e)).replace("<", "").replace("&", "")[:2000] + "</x>", False
    body = s.partition("?>")[2].strip()
    st = scn["style"]
    if st == 1:
        body = body.replace(" xmlns=", " xmlns:aas=").replace("<", "<aas:").replace("<aas:/", "</aas:")
    elif st == 2:
        body = re.sub(r">(?=<[^/])", ">\n  ", body)       # not into empty values
    elif st == 3:
        body = body + "<!-- end -->\n"
    elif st == 6:           # the same document, written differently
        body = "<?pi x?><!-- <a> -->" + re.sub(r">(?=<[^/])", "><!-- & -->", body)
    elif st == 7:
        body = re.sub(r">([ -%'-;=?-~]+)<", r"><![CDATA[\1]]><", body)
    elif st == 8:
        body = re.sub(r">([^<>&])([^<>&]*)<", lambda m: f">&#{ord(m[1])};{m[2]}<", body)
    elif st == 9:
        body = re.sub(r"<([a-zA-Z]+)([^<>]*)></\1>", r"<\1\2/>", body).replace("><", "\n><", 1)
    elif st == 4:
        body = "<!DOCTYPE x [<!ENTITY y 'z'>]>" + body
    decl = {"none": "", "bogus": '<?xml version="1.0" encoding="x-bogus"?>', "lie": '<?xml version="1.0" encoding="utf-16"?>',
            "utf-8-sig": '<?xml version="1.0" encoding="utf-8"?>'}.get(enc, f'<?xml version="1.0" encoding="{enc}"?>')
    if enc in ("bogus", "lie"):
        valid = False
    codec = {"none": "utf-8", "bogus": "utf-8", "lie": "utf-8"}.get(enc, enc)
    try:
        return (decl + "\n" + body).encode(codec, "xmlcharrefreplace"), valid
    except UnicodeError:
        return (decl + body).encode("utf-8", "surrogatepass"), False


def shuffle(rng, v):
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffle(rng, v[k]) for k in ks}
    return [shuffle(rng, x) for x in v] if isinstance(v, list) else v


def opened(scn, b):
    rd = scn["read"] or [None, None]
    fail = None if rd[1] is None else int(rd[1] * len(b))
    raw = docs.FaultyFile(b, rd[0], fail, seekable=scn["pick"] % 2 == 0)       # a file or a pipe
    if scn["open"] == "bytes":
        return io.BytesIO(b), raw
    if scn["open"] == "raw":
        return raw, raw
    f = io.BufferedReader(raw, 64)
    return (io.TextIOWrapper(f, encoding="utf-8") if scn["open"] == "text" else f), raw


def parsed(scn, b):
    """("doc", document, strict) or ("bad", reason)"""
    import json
    try:
        if scn["open"] == "text":
            b = io.TextIOWrapper(io.BytesIO(b), encoding="utf-8").read()
        if scn["fmt"] == "xml":
            return "doc", ElementTree.fromstring(b), True
        strict = []
        d = json.loads(b, parse_constant=lambda c: strict.append(c) or float(c))
        return "doc", d, not strict
    except RecursionError:
        return "deep", "nested too deeply"
    except Exception as e:
        return "bad", f"{type(e).__name__}"


def depth(b):
    """Nesting depth, roughly."""
    d = m = 0
    for c in b:
        if c in b"[{":
            d += 1
            m = max(m, d)
        elif c in b"]}":
            d -= 1
    x = y = 0
    for tag in re.findall(rb"<([a-zA-Z/][^<>]{0,400})", b):
        if tag[:1] == b"/":
            x -= 1
        elif not tag.endswith(b"/"):
            x += 1
            y = max(y, x)
    return max(m, y)


def run(scn, ctx):
    from aas_test_engines import file
    b, valid = encode(scn)
    clean = b
    for d in scn["bytes"]:
        b = docs.apply_damage(b, d)
    f, raw = opened(scn, b)
    fn, fd = (file.check_json_file, file.check_json_data) if scn["fmt"] == "json" else (file.check_xml_file, file.check_xml_data)
    what = f"{scn['fmt'].upper()} file ({scn['model']}, {scn['enc']}, {scn['open']})"
    for d in scn["bytes"]:
        ctx.fired["storage_" + d["kind"]] += 1
    for k in ("damage", "deep", "wild", "as"):
        if scn.get(k) is not None:
            ctx.fired["document_" + k] += 1
    try:
        r = fn(f, model_type=scn["model"])
        out = ("ok" if r.ok() else "not ok", rn.tree(r))
    except Exception as e:
        out = ("raised", type(e).__name__, rn.scrub(str(e))[:200], isinstance(e, docs.ReadFault))
    if raw.fired:
        ctx.fired["read_error"] += 1
    elif scn["read"]:
        ctx.fired["short_reads"] += 1
    p = parsed(scn, b)
    ctx.steps += len(b)
    ctx.note(out, p[0], raw.fired)
    ctx.shape = (scn["fmt"], scn["model"], out[0], p[0], scn["open"], bool(raw.fired))
    if out[0] == "raised":
        if out[3] and raw.fired:
            return None
        return viol("raised", f"{what}: checking raised {out[1]}: {out[2]}")
    if raw.fired:
        if out[0] == "ok":
            return viol("read-error-ok", f"{what}: reported OK although reading it failed")
        return None
    if p[0] != "doc":
        if out[0] == "ok" and p[0] == "bad":
            return viol("malformed-ok", f"{what}: reported OK although its bytes are not well-formed ({p[1]})")
        return None
    if not p[2]:
        return viol("malformed-ok", f"{what}: reported OK although it contains NaN or Infinity") if out[0] == "ok" else None
    if valid and b == clean and not (scn["open"] == "text" and scn["enc"] not in ("utf-8", "none", "us-ascii")):
        if out[0] != "ok":
            bad = leaves(out[1])
            if scn["doc"] == CATEGORY and bad and all("AASc-3a-004" in x[0] for x in bad):
                return viol("concept-category", f"{what}: {bad[0][0]}")
            return viol("valid-not-ok", f"{what}: a valid document is reported not OK: {worst_of(out[1])}")
    if scn.get("deep") or depth(b) > 60:
        return None
    try:
        want = rn.tree(fd(p[1], model_type=scn["model"]))
    except Exception as e:
        return viol("data-raised", f"{what}: checking the parsed document raised {type(e).__name__}: {rn.scrub(str(e))[:200]}")
    if want != out[1]:
        return viol("differs", f"{what}: differs from the check of the parsed document: {diff_path(out[1], want)}")
    return None


def worst_of(t):
    for k in t[2]:
        if k[1] == t[1]:
            return worst_of(k)
    return str(t[0])[:200]


def shrink(scn):
    for c in ddmin_candidates(scn["bytes"]):
        yield {**scn, "bytes": c}
    if scn["read"] and scn["read"][1] is not None:
        yield {**scn, "read": [scn["read"][0], None]}
    if scn["open"] != "bytes":
        yield {**scn, "open": "bytes", "read": None}
    if scn["style"]:
        yield {**scn, "style": 0}
    if scn["enc"] != "utf-8":
        yield {**scn, "enc": "utf-8"}
    for k in KEYS:
        if k != scn["doc"] and scn["doc"] != CATEGORY:
            if scn["doc"] not in KEYS or KEYS.index(k) < KEYS.index(scn["doc"]):
                yield {**scn, "doc": k}
    if scn["damage"] is not None:
        yield {**scn, "damage": None}
