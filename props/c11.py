import io
import os
import posixpath
import struct
import zipfile
from urllib.parse import quote, unquote
from xml.etree import ElementTree

from .common import *
from sim import docs

ID = "C11"
RUNS = {"quick": 30000, "thorough": 300000}
RULE = ("seeded package layouts (several origins, specification, supplementary and thumbnail parts, nested, shared and cyclic relationships, "
        "absolute and relative targets, deprecated types, JSON and XML documents, valid or not) x defects of the producer (missing, duplicate, "
        "renamed and reordered members, wrong or damaged relationships, part contents cut off, crash while writing or appending) x storage "
        "faults on the bytes (truncation at any byte, flipped bits, zeroed, stale, duplicated, dropped and swapped blocks) x short reads and "
        "read errors at any offset; verdict compared with an own walk over the package and every specification part checked alone; distinct = "
        "different trace hash")
REAL = ["aas_test_engines.file, opc, result and the metamodel checks", "zipfile, zlib, xml.etree, json"]
STUB = ["the file (sim.docs.FaultyFile below io.BufferedReader)", "the storage which damages it"]
ASSUME = ["zipfile decides what of a damaged archive can be read", "the walk in props/c11.py states which parts a package refers to",
          "a part with another extension than .xml and .json cannot be checked and is only warned about"]

TYPES = {"o": docs.T_ORIGIN, "s": docs.T_SPEC, "p": docs.T_SUPPL, "t": docs.T_THUMB, "x": "http://example.com/other"}
SMALL = [[201, 1, True, False], [205, 0, False, False, "contact_information"], [206, 0, False, False, "digital_nameplate"],
         [211, 1, False, False], [212, 1, True, False], [213, 2, False, False]]


def gen_content(rng):
    r = rng.random()
    kind = rng.choice(["json", "xml"])
    c = [kind, rng.choice(SMALL), None, None]
    if r < 0.2:
        c[2] = rng.randrange(10**6)
    elif r < 0.3:
        c[3] = docs.gen_damage(rng, 0)
    return c


def gen(rng, i, tier):
    ext = {"json": ".json", "xml": ".xml"}
    parts, rels = [], {}
    folder = rng.choice(["aasx/", "aasx/", "", "a/b/c/", "AASX/", "aasx/", "a b/", "a%20b/", "\u00e4/", "a/b/c/d/e/f/g/h/i/j/"])

    def name(base, e):
        f = rng.choice([folder, folder, "", "other/", folder + "sub/"])
        if rng.random() < 0.06:
            base = rng.choice(["a b", "a%20b", "\u00e4\u4e2d", "a+b", "a#b", "a&b", "a;b=c", "a..b", ".hidden", "spec.xml.old", "x~1", "a?b", "%41", "a_rels"])
        n = f"{f}{base}{e}"
        while any(p[0] == n for p in parts):
            n = f"{f}{base}{rng.randrange(1000)}{e}"
        return n

    def target(owner, n):
        r = rng.random()
        if r < 0.6:
            return "/" + n
        d = owner.rpartition("/")[0]
        t = posixpath.relpath("/" + n, "/" + d)
        if r > 0.95:
            t = "./" + t
        elif r > 0.9:
            t = "x/../" + t
        return t
    old = rng.random() < 0.15
    origins = []
    for k in range(rng.choice([1, 1, 1, 1, 1, 1, 2, 0])):
        n = name("aasx-origin" if k == 0 else "origin2", "")
        parts.append([n, ["raw", "Intentionally empty."]])
        origins.append(n)
        rels.setdefault("", []).append(["o", target("", n), old])
    specs = []
    for k in range(rng.choice([1, 1, 1, 2, 2, 3, 0])):
        c = gen_content(rng)
        if rng.random() < 0.03:
            n = name("spec", rng.choice([".txt", ".bin", ""]))
        else:
            n = name("spec", ext[c[0]])
        parts.append([n, c])
        specs.append(n)
        if origins:
            rels.setdefault(rng.choice(origins), []).append(["s", target(origins[0], n) if False else "/" + n, old])
    for o in origins:
        for r in rels.get(o, []):
            if rng.random() < 0.5:
                r[1] = target(o, r[1][1:])
    for k in range(rng.choice([0, 0, 1, 2, 4])):
        n = name("suppl", rng.choice([".bin", ".pdf", ".xml", ".json"]))
        parts.append([n, ["raw", "supplementary " * rng.choice([0, 1, 30])]])
        owner = rng.choice(specs or [""])
        rels.setdefault(owner, []).append(["p", target(owner, n), old])
    if rng.random() < 0.4:
        parts.append(["thumbnail.png", ["raw", "PNG"]])
        rels.setdefault("", []).append(["t", "/thumbnail.png", False])
    # further relationships: cycles, sharing, unusual types
    for k in range(rng.choice([0, 0, 0, 1, 2, 5])):
        owner = rng.choice([""] + [p[0] for p in parts])
        if parts:
            rels.setdefault(owner, []).insert(rng.randrange(len(rels.get(owner, [])) + 1),
                                              [rng.choice("ospxo"), target(owner, rng.choice(parts)[0]), False])
    scn = {"parts": parts, "rels": sorted(rels.items()), "stored": rng.random() < 0.4, "defects": [], "bytes": [], "read": None}
    r = rng.random()
    if r < 0.4:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            scn["defects"].append(gen_defect(rng))
    elif r < 0.75:
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            d = docs.gen_damage(rng, 0)
            if rng.random() < 0.12:
                d = {"kind": "append_crash", "keep": rng.randrange(10**6), "at": round(rng.random(), 4)}
            elif rng.random() < 0.25:
                d = {"kind": "field", "seed": rng.randrange(10**6)}
            elif rng.random() < 0.35:
                d = {"kind": "member", "i": rng.randrange(10**6), "at": round(rng.random(), 4), "how": rng.choice(["flip", "zero", "stale"])}
            scn["bytes"].append(d)
    if rng.random() < 0.2:
        scn["read"] = [rng.choice([1, 3, 17, 512, 100000]), round(rng.random(), 4) if rng.random() < 0.5 else None]
    return scn


def gen_defect(rng):
    k = rng.choice(["drop", "drop", "drop", "dup", "dup", "rename", "reorder", "cut", "cut", "flip", "rel_target", "rel_target", "rel_attr", "rel_tag", "rel_mode",
                    "rel_root", "rel_cut", "ct_root", "ct_cut", "empty", "chain", "many", "folders", "encode", "encode", "big"])
    return {"kind": k, "i": rng.randrange(10**6), "at": round(rng.random(), 4)}


def members_of(scn):
    """[(name, bytes)] of the package after the producer's defects."""
    rels = {o: [list(r) for r in rs] for o, rs in scn["rels"]}
    parts = [list(p) for p in scn["parts"]]
    tags = {}
    for d in scn["defects"]:
        k, i = d["kind"], d["i"]
        allr = [(o, j) for o in sorted(rels) for j in range(len(rels[o]))]
        if k == "rel_target" and allr:
            o, j = allr[i % len(allr)]
            rels[o][j][1] = ["/missing.xml", "nothere/a.json", "/", "..", "../../..", "", "/aasx", "%2Faasx%2Fspec.xml", "/_rels/.rels",
                             "/[Content_Types].xml", rels[o][j][1] + "x", rels[o][j][1].upper(), rels[o][j][1].replace("/", "\\"),
                             quote(rels[o][j][1], safe="/"), unquote(rels[o][j][1]), rels[o][j][1] + "#part", rels[o][j][1] + "?q=1",
                             rels[o][j][1][:1] + rels[o][j][1][1:].replace("/", "/ "), "/aasx/", "/aasx/_rels/missing.rels", "/x/_rels/" + rels[o][j][1].strip("/") + ".rels",
                             rels[o][j][1].replace(".", ". "), "/./" + rels[o][j][1].lstrip("/"), "http://host/" + rels[o][j][1].lstrip("/"),
                             "/a/../" + rels[o][j][1].lstrip("/") + "/..", rels[o][j][1].rpartition("/")[2]][i % 26]
        elif k == "rel_attr" and allr:
            o, j = allr[i % len(allr)]
            tags[(o, j)] = ["noType", "noTarget", "lower"][i % 3]
        elif k == "rel_mode" and allr:
            o, j = allr[i % len(allr)]
            tags[(o, j)] = ["External", "Internal", "external"][i // 3 % 3]
            if i // 9 % 2:
                rels[o][j][1] = ["/missing.xml", "http://example.org/spec.xml", "missing.json"][i // 18 % 3]
        elif k == "rel_tag" and allr:
            o, j = allr[i % len(allr)]
            tags[(o, j)] = ["tag", "ns"][i % 2]
        elif k == "chain":
            n = [3, 20, 60][i % 3]
            prev = ""
            for q in range(n):
                nm = f"chain/{'d/' * (q % 16 if i // 6 % 2 else 0)}c{q}.bin"
                parts.append([nm, ["raw", "c"]])
                rels.setdefault(prev, []).append(["x", "/" + nm, False])
                prev = nm
            if i % 2:
                rels.setdefault(prev, []).append(["x", "/chain/missing.bin", False])
        elif k == "many":           # a part with very many relationships
            o = sorted(rels)[i % len(rels)] if rels else ""
            for q in range([10, 70, 300][i % 3]):
                parts.append([f"many/m{q}.bin", ["raw", "m"]])
                rels.setdefault(o, []).append(["p", f"/many/m{q}.bin", False])
            if i // 3 % 2:
                rels[o].append(["p", "/many/missing.bin", False])
        elif k == "folders":        # entries for the folders themselves
            fs = sorted({p[0].rpartition("/")[0] + "/" for p in parts if "/" in p[0]})
            parts[:0] = [[f, ["raw", ""]] for f in fs]
            if i % 2 and allr and fs:
                o, j = allr[i % len(allr)]
                rels[o][j][1] = "/" + fs[i // 2 % len(fs)][:None if i // 4 % 2 else -1]
    m = [["[Content_Types].xml", docs.CONTENT_TYPES]]
    for o in sorted(rels):
        m.append([docs.rels_name(o), rels_bytes(o, rels[o], tags)])
    for n, c in parts:
        m.append([n, content(c)])
    for d in scn["defects"]:
        k, i, at = d["kind"], d["i"], d["at"]
        rl = [x for x in m if x[0].endswith(".rels")]
        pt = [x for x in m if not x[0].endswith(".rels") and x[0] != "[Content_Types].xml"]
        if not m:
            break
        if k == "drop":
            m.pop(i % len(m))
        elif k == "dup":
            x = m[i % len(m)]
            other = [b"", x[1], x[1][:int(at * len(x[1]))], b"<a/>", b"{}", m[(i // 7) % len(m)][1]][(i // 3) % 6]
            m.insert((i // 5) % (len(m) + 1), [x[0], other])
        elif k == "rename":
            x = m[i % len(m)]
            x[0] = [x[0].upper(), x[0] + "~", "x/" + x[0], x[0].replace("/", "\\"), x[0].rpartition("/")[2], "./" + x[0]][(i // 3) % 6]
        elif k == "reorder":
            random.Random(i).shuffle(m)
        elif k == "cut" and pt:
            x = pt[i % len(pt)]
            x[1] = x[1][:int(at * len(x[1]))]
        elif k == "flip" and pt:
            x = pt[i % len(pt)]
            x[1] = docs.apply_damage(x[1], {"kind": "flip", "at": 0, "len": 1, "seed": i})
        elif k == "empty":
            m[i % len(m)][1] = b""
        elif k == "rel_cut" and rl:
            x = rl[i % len(rl)]
            x[1] = x[1][:int(at * len(x[1]))]
        elif k == "rel_root" and rl:
            x = rl[i % len(rl)]
            x[1] = [x[1].replace(b"<Relationships xmlns", b"<Relations xmlns").replace(b"</Relationships>", b"</Relations>"),
                    x[1].replace(docs.R.encode(), b"urn:other"), b"<a/>", b"[]"][i // 3 % 4]
        elif k == "encode":         # not a defect: another encoding
            enc = ["utf-16", "utf-8-sig", "iso-8859-1", "utf-16-be", "utf-32"][i // 3 % 5]
            few = [y for y in m if y[0].endswith((".rels", ".xml"))]
            x = few[i % len(few)] if few and i // 30 % 2 else m[i % len(m)]
            x[1] = reencode(x[1], enc)
        elif k == "big" and pt:     # not a defect either
            x = pt[i % len(pt)]
            n = [70000, 300000, 300000, 1100000][i // 7 % 4]
            if x[1][:1] == b"{":
                x[1] = b"{" + b" \n" * (n // 2) + x[1][1:]
            elif b"?>" in x[1]:
                x[1] = x[1].replace(b"?>", b"?><!--" + b"x" * n + b"-->", 1)
        elif k == "ct_root":
            for x in m:
                if x[0] == "[Content_Types].xml":
                    x[1] = [x[1].replace(b"content-types", b"contents"), b"<Types/>", b"{}"][i % 3]
        elif k == "ct_cut":
            for x in m:
                if x[0] == "[Content_Types].xml":
                    x[1] = x[1][:int(at * len(x[1]))]
    return m


def reencode(b, enc):
    try:
        t = b.decode("utf-8")
        if t.startswith("<?xml"):
            t = f'<?xml version="1.0" encoding="{enc.replace("-sig", "").replace("-be", "")}"?>' + t.partition("?>")[2]
            return (b"\xfe\xff" if enc == "utf-16-be" else b"") + t.encode(enc, "xmlcharrefreplace")
        return t.encode(enc)
    except UnicodeError:
        return b


def rels_bytes(owner, rs, tags):
    s = f'<?xml version="1.0" encoding="utf-8"?><Relationships xmlns="{docs.R}">'
    for j, (t, target, old) in enumerate(rs):
        ty = TYPES[t]
        if old:
            ty = docs.OLD.get(ty, ty)
        tg = target.replace("&", "&amp;").replace("<", "&lt;")
        k = tags.get((owner, j))
        if k == "noType":
            s += f'<Relationship Target="{tg}" Id="R{j}"/>'
        elif k == "noTarget":
            s += f'<Relationship Type="{ty}" Id="R{j}"/>'
        elif k == "lower":
            s += f'<Relationship type="{ty}" target="{tg}" Id="R{j}"/>'
        elif k == "tag":
            s += f'<Relation Type="{ty}" Target="{tg}" Id="R{j}"/>'
        elif k in ("External", "Internal", "external"):
            s += f'<Relationship Type="{ty}" Target="{tg}" TargetMode="{k}" Id="R{j}"/>'
        elif k == "ns":
            s += f'<x:Relationship xmlns:x="urn:x" Type="{ty}" Target="{tg}" Id="R{j}"/>'
        else:
            s += f'<Relationship Type="{ty}" Target="{tg}" Id="R{j}"/>'
    return (s + "</Relationships>").encode()


_content = {}


def content(c):
    if c[0] == "raw":
        return c[1].encode()
    key = jdump(c)
    if key not in _content:
        e = docs.env(c[1])
        if c[2] is not None:
            e = damage(random.Random(c[2]), e)
        try:
            b = docs.json_bytes(e) if c[0] == "json" else docs.xml_bytes(e)
        except Exception:
            b = docs.xml_bytes(docs.env(c[1]))[:-20]
        if c[3] is not None:
            b = docs.apply_damage(b, c[3])
        _content[key] = b
    return _content[key]


def field_damage(b, seed):
    """Damages a header field of the archive: flags (encrypted), method, CRC, sizes, offsets, name length."""
    r = random.Random(seed)
    sig, fields = r.choice([(b"PK\x03\x04", [(4, "H"), (6, "H"), (8, "H"), (14, "I"), (18, "I"), (22, "I"), (26, "H"), (28, "H")]),
                            (b"PK\x01\x02", [(6, "H"), (8, "H"), (10, "H"), (16, "I"), (20, "I"), (24, "I"), (28, "H"), (30, "H"), (42, "I")]),
                            (b"PK\x05\x06", [(4, "H"), (8, "H"), (10, "H"), (12, "I"), (16, "I"), (20, "H")])])
    pos = [i for i in range(len(b)) if b.startswith(sig, i)]
    if not pos:
        return b
    p = r.choice(pos)
    off, fmt = r.choice(fields)
    if p + off + struct.calcsize(fmt) > len(b):
        return b
    v = struct.unpack_from("<" + fmt, b, p + off)[0]
    v = r.choice([v ^ 1, v + 1, 0, 8, 12, 14, 99, v ^ 8, v ^ 0x800, 2**15, 2**31 if fmt == "I" else 1]) % (2**32 if fmt == "I" else 2**16)
    out = bytearray(b)
    struct.pack_into("<" + fmt, out, p + off, v)
    return bytes(out)


def member_damage(b, d):
    """Damages the stored content of one member."""
    try:
        z = zipfile.ZipFile(io.BytesIO(b)).infolist()
    except Exception:
        return b
    if not z:
        return b
    zi = z[d["i"] % len(z)]
    if not 0 <= zi.header_offset <= len(b) - 30:
        return b
    start = zi.header_offset + 30 + sum(struct.unpack_from("<HH", b, zi.header_offset + 26))
    n = zi.compress_size
    at = start + int(d["at"] * n)
    if n == 0 or at >= len(b):
        return b
    x = bytearray(b)
    if d["how"] == "flip":
        x[at] ^= 1 << d["i"] % 8
    else:
        r = random.Random(d["i"])
        for k in range(at, min(start + n, len(b))):
            x[k] = 0 if d["how"] == "zero" else r.randrange(256)
    return bytes(x)


def package_bytes(scn):
    m = members_of(scn)
    method = zipfile.ZIP_STORED if scn["stored"] else zipfile.ZIP_DEFLATED
    b = docs.zip_bytes(m, method)
    for d in scn["bytes"]:
        if d["kind"] == "append_crash" and m:
            # the producer appended the last members to an existing package and crashed after some bytes
            first = docs.zip_bytes(m[:d["keep"] % len(m)], method)
            new = docs.zip_bytes(m, method)
            start = first.rfind(b"PK\x05\x06") if len(first) == 22 else first.find(b"PK\x01\x02")
            n = start + int(d["at"] * (len(new) - start))
            b = new[:n] + first[n:]
        elif d["kind"] == "member":
            b = member_damage(b, d)
        elif d["kind"] == "field":
            b = field_damage(b, d["seed"])
        elif d["kind"] != "append_crash":
            b = docs.apply_damage(b, d)
    return b


# -- oracle ------------------------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


def resolve(owner, target):
    base = [] if target.startswith("/") else [x for x in owner.split("/")[:-1] if x]
    for seg in target.split("/"):
        if seg in ("", "."):
            continue
        if seg == "..":
            if base:
                base.pop()
        else:
            base.append(seg)
    return "/".join(base)


def read(z, n):
    try:
        return z.read(n)
    except KeyError:
        raise
    except Exception as e:
        raise Bad(f"{n} cannot be read: {type(e).__name__}")


def read_xml(z, n, root):
    b = read(z, n)
    try:
        e = ElementTree.fromstring(b)
    except Exception as x:
        raise Bad(f"{n} is not XML")
    if e.tag != root:
        raise Bad(f"{n} has root {e.tag}")
    return e


def walk(b):
    """(specification parts [(name, bytes)], None) of a readable package, or (None, reason)."""
    ns = "{" + docs.R + "}"
    new = {v: k for k, v in docs.OLD.items()}
    try:
        try:
            z = zipfile.ZipFile(io.BytesIO(b))
        except Exception as e:
            raise Bad(f"not a zip file: {type(e).__name__}")
        names = set(z.namelist())
        try:
            read_xml(z, "[Content_Types].xml", "{http://schemas.openxmlformats.org/package/2006/content-types}Types")
        except KeyError:
            raise Bad("no [Content_Types].xml")
        graph = {}
        todo, first = [""], True
        while todo:
            p = todo.pop()
            if p in graph:
                continue
            graph[p] = []
            try:
                e = read_xml(z, docs.rels_name(p), ns + "Relationships")
            except KeyError:
                if p == "" and first:
                    raise Bad("no root relationships")
                continue
            finally:
                first = False
            for r in e:
                if r.tag != ns + "Relationship":
                    raise Bad(f"element {r.tag} among the relationships of {p}")
                if "Type" not in r.attrib or "Target" not in r.attrib:
                    raise Bad(f"incomplete relationship of {p}")
                t = resolve(p, r.attrib["Target"])
                if t not in names:
                    raise Bad(f"relationship of {p or 'the package'} to missing {t}")
                graph[p].append((new.get(r.attrib["Type"], r.attrib["Type"]), t))
                todo.append(t)
        specs = []
        for t, o in graph[""]:
            if t == docs.T_ORIGIN:
                for t2, s in graph[o]:
                    if t2 == docs.T_SPEC:
                        specs.append((s, read(z, s)))
        return specs, None
    except Bad as e:
        return None, str(e)


def alone(kind, b):
    from aas_test_engines import file
    try:
        return bool((file.check_xml_file if kind == "xml" else file.check_json_file)(io.BytesIO(b)).ok())
    except Exception as e:
        return f"raised {e!r}"


def engine(b, rd):
    from aas_test_engines import file
    if rd is None:
        f, raw = io.BytesIO(b), None
    else:
        raw = docs.FaultyFile(b, rd[0], None if rd[1] is None else int(rd[1] * len(b)))
        f = io.BufferedReader(raw, 256)
    try:
        r = file.check_aasx_file(f)
        out = ("ok" if r.ok() else "not ok", rn.tree(r))
    except Exception as e:
        out = ("raised", f"{type(e).__name__}: {rn.scrub(str(e))[:200]}")
    return out, raw.fired if raw else 0


def run(scn, ctx):
    b = package_bytes(scn)
    specs, why = walk(b)
    want, unknown = True, False
    if specs is None:
        want = False
    else:
        for n, c in specs:
            kind = "xml" if n.endswith(".xml") else "json" if n.endswith(".json") else None
            if kind is None:
                unknown = True
                continue
            v = pristine(("c11", kind, sha(c)), alone, kind, c)
            if v is not True:
                want, why = False, f"{n} is not OK when checked alone"
                break
    out, fired = engine(b, scn["read"])
    for d in scn["defects"]:
        ctx.fired["defect_" + d["kind"]] += 1
    for d in scn["bytes"]:
        ctx.fired["storage_" + d["kind"]] += 1
    if scn["read"]:
        ctx.fired["short_reads"] += 1
    if fired:
        ctx.fired["read_error"] += 1
    ctx.steps += len(scn["parts"]) + len(scn["rels"])
    ctx.note(out, want, fired)
    ctx.shape = (out[0], why and re_name(why))
    if out[0] == "raised":
        return viol("raised", f"checking the package raised {out[1]}")
    if fired:
        if out[0] == "ok":
            return viol("read-error-ok", "a package which could not be read completely is reported OK")
        return None
    if want and out[0] != "ok":
        return viol("false-error", f"a package which can be read and whose parts are all OK is reported not OK: {worst_of(out[1])}")
    if not want and out[0] == "ok":
        return viol("false-ok", f"reported OK although: {why}")
    return None


def re_name(s):
    import re
    return re.sub(r"[\w./~\\%-]*\.(xml|json|rels|bin|pdf|png|txt)[\w~]*", "P", s)[:60]


def worst_of(t):
    for k in t[2]:
        if k[1] == t[1]:
            return worst_of(k)
    return str(t[0])[:200]


def shrink(scn):
    for k in ("defects", "bytes"):
        for c in ddmin_candidates(scn[k]):
            yield {**scn, k: c}
    if scn["read"]:
        yield {**scn, "read": None}
    for i in range(len(scn["parts"])):
        yield {**scn, "parts": scn["parts"][:i] + scn["parts"][i + 1:]}
    for i, (o, rs) in enumerate(scn["rels"]):
        yield {**scn, "rels": scn["rels"][:i] + scn["rels"][i + 1:]}
        for j in range(len(rs)):
            yield {**scn, "rels": scn["rels"][:i] + [[o, rs[:j] + rs[j + 1:]]] + scn["rels"][i + 1:]}
