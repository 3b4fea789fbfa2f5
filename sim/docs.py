"""Documents and packages as bytes: JSON and XML environments, AASX packages, and ways to damage them."""
import copy
import io
import json
import os
import random
import re
import zipfile

from . import data as dt

HERE = os.path.dirname(os.path.abspath(__file__))
_tmpl = {}


def template(name):
    if name not in _tmpl:
        with open(os.path.join(HERE, "fixtures", name + ".json"), encoding="utf-8") as f:
            _tmpl[name] = json.load(f)
    return _tmpl[name]


QUIRKS = ["noshort", "empty"]


def twin(e, seed):
    """A document which differs from e slightly, in some of its strings."""
    rng = random.Random(seed)
    rate = rng.choice([0.02, 0.2, 0.5])

    def alter(v):
        if isinstance(v, dict):
            return {k: x if k == "modelType" else alter(x) for k, x in v.items()}
        if isinstance(v, list):
            return [alter(x) for x in v]
        if not isinstance(v, str) or rng.random() >= rate:
            return v
        return rng.choice([v.swapcase(), v + "x", v[:-1] + "!", v + "0", v + " ", v[:-1], v.lower(), v + v, v[::-1]])
    return alter(e)


def env(key):
    """key: [seed, size, rich, full] or [.., template name or None, further quirks, seed of the differences of a twin]"""
    if len(key) > 6:
        return twin(env(key[:6]), key[6])
    q = [QUIRKS + (key[5] if len(key) > 5 else [])]
    if len(key) > 4 and key[4]:
        e = copy.deepcopy(dt.environment(dt.dataset(key[:4] + q))) if key[1] else {}
        t = copy.deepcopy(template(key[4]))
        if "submodels" in t:
            e.setdefault("submodels", []).extend(t["submodels"])
        else:
            e.setdefault("submodels", []).append(t)
        return e
    return dt.environment(dt.dataset(key[:4] + q))


KEYS = [[201, 1, True, False], [202, 1, True, True], [203, 2, True, False], [204, 1, False, True], [205, 0, False, False, "contact_information"],
        [206, 0, False, False, "digital_nameplate"], [207, 1, False, False, "digital_nameplate"], [208, 3, True, True]]


def json_bytes(e, style=0):
    if style == 1:
        return json.dumps(e, indent=2, ensure_ascii=False).encode()
    if style == 2:
        return json.dumps(e, separators=(",", ":")).encode()
    return json.dumps(e).encode()


def xml_bytes(e, tag="environment"):
    return dt.to_xml(e, tag).encode()


# -- AASX ---------------------------------------------------------------------------------------------------------------
R = "http://schemas.openxmlformats.org/package/2006/relationships"
T_ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
T_SPEC = "http://admin-shell.io/aasx/relationships/aas-spec"
T_SUPPL = "http://admin-shell.io/aasx/relationships/aas-suppl"
T_THUMB = R + "/metadata/thumbnail"
OLD = {T_ORIGIN: "http://www.admin-shell.io/aasx/relationships/aasx-origin",
       T_SPEC: "http://www.admin-shell.io/aasx/relationships/aas-spec",
       T_SUPPL: "http://www.admin-shell.io/aasx/relationships/aas-suppl"}
CONTENT_TYPES = (b'<?xml version="1.0" encoding="utf-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">'
                 b'<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>'
                 b'<Default Extension="xml" ContentType="text/xml"/><Default Extension="json" ContentType="application/json"/>'
                 b'<Default Extension="bin" ContentType="application/octet-stream"/></Types>')


def rels_xml(items):
    """items: [(type, target)]"""
    s = f'<?xml version="1.0" encoding="utf-8"?><Relationships xmlns="{R}">'
    for i, (t, target) in enumerate(items):
        s += f'<Relationship Type="{t}" Target="{target.replace("&", "&amp;")}" Id="R{i}"/>'
    return (s + "</Relationships>").encode()


def rels_name(part):
    d, _, f = part.rpartition("/")
    return (d + "/" if d else "") + "_rels/" + f + ".rels"


def package(spec):
    """Members [(name, bytes)] of a package described by a plain dict:
    origin: name of the origin part; specs: [[name, docbytes]]; suppl: [[owner index, name]]; thumb: bool; relative: bool; old: bool."""
    origin = spec.get("origin", "aasx/aasx-origin")
    rel = spec.get("relative")
    old = spec.get("old")

    def target(owner, name):
        if not rel:
            return "/" + name
        d = owner.rpartition("/")[0]
        dd = d.split("/") if d else []
        nn = name.split("/")
        k = 0
        while k < len(dd) and k < len(nn) - 1 and dd[k] == nn[k]:
            k += 1
        return "../" * (len(dd) - k) + "/".join(nn[k:])

    def ty(t):
        return OLD.get(t, t) if old else t
    members = [["[Content_Types].xml", CONTENT_TYPES]]
    root = [(ty(T_ORIGIN), target("", origin))]
    extra = []
    if spec.get("thumb"):
        root.append((T_THUMB, target("", "thumbnail.png")))
        extra.append(["thumbnail.png", b"\x89PNG\r\n\x1a\n" + bytes(range(256))])
    members.append(["_rels/.rels", rels_xml(root)])
    members.append([origin, b"Intentionally empty."])
    members.append([rels_name(origin), rels_xml([(ty(T_SPEC), target(origin, n)) for n, _ in spec["specs"]])])
    by_owner = {}
    for owner, name in spec.get("suppl", []):
        by_owner.setdefault(owner, []).append(name)
        if all(name != x[0] for x in extra):
            extra.append([name, b"supplementary " + name.encode() * 20])
    for i, (n, b) in enumerate(spec["specs"]):
        members.append([n, b])
        if i in by_owner:
            members.append([rels_name(n), rels_xml([(ty(T_SUPPL), target(n, x)) for x in by_owner[i]])])
    return members + extra


def zip_bytes(members, method=zipfile.ZIP_DEFLATED, comment=b"", flags=0):
    buf = io.BytesIO()
    z = zipfile.ZipFile(buf, "w", method)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for m in members:
            name, b = m[0], m[1]
            zi = zipfile.ZipInfo(name, (2024, 1, 1, 0, 0, 0))
            zi.compress_type = m[2] if len(m) > 2 else method
            zi.external_attr = 0o600 << 16
            z.writestr(zi, b)
    z.comment = comment
    z.close()
    return buf.getvalue()


# -- storage faults on bytes ----------------------------------------------------------------------------------------------
def gen_damage(rng, n):
    """A random storage fault for n bytes, as plain data (fractions, so that it applies to any length)."""
    k = rng.choice(["truncate", "truncate", "truncate", "flip", "flip", "flip", "zero", "stale", "dup", "drop", "swap", "append", "prepend",
                    "insert", "pad"])
    d = {"kind": k, "at": round(rng.random(), 4), "len": rng.choice([1, 1, 2, 8, 64, 512, 4096]), "seed": rng.randrange(10**6)}
    if k == "truncate" and rng.random() < 0.3:
        d["cut"] = rng.choice([1, 2, 3, 10, 22, 23, 46, 100])
    if k == "pad":
        d["pad"] = [rng.choice(["20", "0a", "0d0a", "09", "00", "efbbbf", "1a", "ff", "2000", "feff", "00000000"]), rng.choice(["before", "after", "both"]),
                    rng.choice([1, 1, 2, 16, 511])]
    if k == "flip":
        d["len"] = rng.choice([1, 1, 1, 2, 4, 16])
    return d


LEXICAL = ["constant", "control", "garbage", "garbage", "garbage", "comma", "comment", "key", "quote", "number", "escape", "entity", "attribute", "tag"]


def gen_lexical(rng):
    """What a careless producer writes: as plain data."""
    return {"kind": "lexical", "what": rng.choice(LEXICAL), "seed": rng.randrange(10**6)}


def apply_lexical(b, d):
    """Replaces or inserts a token somewhere in a JSON or XML text (in an encoding which contains ASCII; otherwise unchanged)."""
    r = random.Random(d["seed"])
    w = d["what"]

    def spot(rx):
        m = [x for x in re.finditer(rx, b)]
        return r.choice(m) if m else None

    def put(m, x, g=0):
        return b if m is None else b[:m.start(g)] + x + b[m.end(g):]
    xml = b.lstrip()[:1] == b"<" or b[:3] == b"\xef\xbb\xbf"
    if w == "garbage" and r.random() < 0.5:
        return r.choice([b"\xef\xbb\xbf" * 2, b"\xef\xbb\xbf", b"\xbb\xbf", b"\x00", b"\xff\xfe", b")]}',\n", b"//\n", b" \n\t", b"\x0c", b"\xc2\xa0", b"\xe2\x80\x8b"]) + b
    if w == "garbage":
        return b + r.choice([b"x", b"{}", b"[]", b",", b"}", b"]", b"null", b"<a/>", b"<!-- end -->", b"<?pi?>", b"\n\n//", b"\x00", b"-->", b"&amp;", b"\x0c"])
    if xml:
        if w in ("constant", "number"):
            return put(spot(rb">([^<>]+)<"), r.choice([b"NaN", b"1e400", b"-0", b"", b" ", b"null"]), 1)
        if w == "control":
            return put(spot(rb">()[^<>]+<"), r.choice([b"\x01", b"&#1;", b"\x0b", b"\xff", b"&#xD800;", b"\xc2\x85", b"\xef\xbf\xbf"]), 1)
        if w == "comment":
            return put(spot(rb">()"), r.choice([b"<!-- x -->", b"<!-- -- -->", b"<?pi x?>", b"<![CDATA[]]>", b"<![CDATA[<x>]]>"]), 1)
        if w == "entity":
            return put(spot(rb">()[^<>]+<"), r.choice([b"&nosuch;", b"&", b"&lt;", b"&#65;", b"&#x41", b"&amp;amp;"]), 1)
        if w == "attribute":
            return put(spot(rb"<[a-zA-Z:]+()"), r.choice([b" x='1'", b" x=1", b" x='1' x='2'", b" xmlns='urn:other'", b" xsi:type='a'", b" xmlns:xsi='urn:x' xsi:nil='true'",
                                                          b" id='<'"]), 1)
        if w == "key":
            return put(spot(rb"<[a-zA-Z:]+(>)"), r.choice([b"/>", b">text", b">\n"]), 1)
        return put(spot(rb"</?([a-zA-Z]+)"), r.choice([b"x", b"submodel", b"X:y", b"value", b"idshort"]), 1)
    if w == "constant":
        return put(spot(rb'"[^"\\]*"(?=[,\]}\s])'), r.choice([b"NaN", b"Infinity", b"-Infinity", b"nan", b"undefined", b"None", b"True"]))
    if w == "control":
        rx = rb'"()[^"\\]*"' if r.random() < 0.4 else rb'"(?:text|value|globalAssetId|id|name)"\s*:\s*"()[^"\\]*"'
        return put(spot(rx), r.choice([b"\x01", b"\n", b"\n", b"\t", b"\t", b"\r", b"\x7f", b"\x1f", b"\xff", b"\xed\xa0\x80"]), 1)
    if w == "comma":
        return put(spot(rb"()[\]}]"), b",", 1) if r.random() < 0.5 else put(spot(rb","), r.choice([b"", b",,", b";"]))
    if w == "comment":
        return put(spot(rb"[,{\[]()"), r.choice([b"/* x */", b"// x\n", b"# x\n"]), 1)
    if w == "key":
        return put(spot(rb"\{()\s*\""), r.choice([b'"id":"x",', b'"modelType":"Submodel",', b'"idShort":"a",', b"1:2,", b"id:1,", b'"":0,', b'"value":[],']), 1)
    if w == "quote":
        m = spot(rb'"[^"\\]*"')
        return put(m, b"" if m is None else r.choice([b"'" + m.group()[1:-1] + b"'", m.group()[1:-1], m.group()[:-1], b"'" + m.group()]))
    if w == "number":
        return put(spot(rb'"[^"\\]*"(?=[,\]}\s])'), r.choice([b"1e400", b"-0", b"01", b"1.", b".5", b"+1", b"0x10", b"1e5", b"9" * 400, b"-", b"1_000", b"1.0", b"9" * 5000]))
    if w == "escape":
        return put(spot(rb'"()[^"\\]*"'), r.choice([b"\\u0000", b"\\ud800", b"\\x41", b"\\u12", b"\\/", b"\\udc00\\ud800", b"\\u0041"]), 1)
    return b


def apply_damage(b, d):
    if d["kind"] == "lexical":
        return apply_lexical(b, d)
    n = len(b)
    r = random.Random(d["seed"])
    at = min(n, int(d["at"] * (n + 1)))
    ln = d["len"]
    k = d["kind"]
    if k == "pad":          # filled up to a block, a mark in front, line ends of another system
        x = bytes.fromhex(d["pad"][0]) * d["pad"][2]
        return (x if d["pad"][1] != "after" else b"") + b + (x if d["pad"][1] != "before" else b"")
    if k == "truncate":
        return b[:max(0, n - d["cut"])] if "cut" in d else b[:at]
    if k == "flip":
        b = bytearray(b)
        for _ in range(ln):
            if n:
                b[r.randrange(n)] ^= 1 << r.randrange(8)
        return bytes(b)
    if k == "zero":
        return b[:at] + b"\0" * min(ln, n - at) + b[at + ln:]
    if k == "stale":        # a block was not written: the storage shows older content there
        old = bytes(r.randrange(256) for _ in range(min(ln, n - at)))
        return b[:at] + old + b[at + ln:]
    if k == "dup":
        return b[:at + ln] + b[at:at + ln] + b[at + ln:]
    if k == "drop":
        return b[:at] + b[at + ln:]
    if k == "swap":
        x, y = b[at:at + ln], b[at + ln:at + 2 * ln]
        return b[:at] + y + x + b[at + 2 * ln:]
    if k == "append":
        return b + bytes(r.randrange(256) for _ in range(ln))
    if k == "prepend":
        return bytes(r.randrange(256) for _ in range(ln)) + b
    if k == "insert":
        return b[:at] + bytes(r.randrange(256) for _ in range(ln)) + b[at:]
    raise AssertionError(k)


class ReadFault(OSError):
    """The injected read error (told apart from the code's own errors)."""


class FaultyFile(io.RawIOBase):
    """A file whose reads are short and may fail. The text the engine gets is decided by the scenario."""

    def __init__(self, data, chunk=None, fail_at=None, err=5, seekable=True, name="sim"):
        self.data, self.pos, self.chunk, self.fail_at, self.err, self._seekable = data, 0, chunk, fail_at, err, seekable
        self.fired = 0
        self.name = name

    def readable(self):
        return True

    def seekable(self):
        return self._seekable

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        p = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + off
        if p < 0:
            raise OSError(22, "Invalid argument")
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def readinto(self, b):
        n = min(len(b), max(0, len(self.data) - self.pos))
        if self.chunk:
            n = min(n, self.chunk)
        if self.fail_at is not None and self.pos <= self.fail_at < max(self.pos + n, self.pos + 1):
            self.fired += 1
            raise ReadFault(self.err, "Input/output error (sim)")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n
