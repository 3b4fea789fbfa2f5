"""Random valid AAS content (JSON form), and its XML rendering. Written from the metamodel, not from the engine."""
import json
import random

NS = "https://admin-shell.io/aas/3/0"
ALL_TYPES = ["SubmodelElementCollection", "SubmodelElementList", "Entity", "BasicEventElement", "Capability", "Operation",
             "Property", "MultiLanguageProperty", "Range", "ReferenceElement", "RelationshipElement",
             "AnnotatedRelationshipElement", "Blob", "File"]
DATA_TYPES = ["Property", "MultiLanguageProperty", "Range", "ReferenceElement", "Blob", "File"]
UCHARS = ["hello", "a b", "<tag> & \"q\"", "ÄÖÜ ✓", "x" * 40, "😀", "\u007f\u0085", "\ufffd", "\ue000", "tab\there", "two\nlines", "cr\rhere", "\r\n", " ", "\t", " lead", "trail ", "&amp;", "]]>", "{}",
          "\\", "日本語", "\u200b", "\U0010ffff", "é", "'", "%41", "null", "\u2028"]


def _digits(r, n):
    return "".join(r.choice("0123456789") for _ in range(n))


def _year(r):
    y = r.choice(["2024", "1999", "2000", "1900", "0001", "0999", "9999", "12345", "2400", "0400", "2100", "0004", "0005", "10000", "%04d" % r.randint(1, 9999), str(r.randint(10000, 99999)), str(r.randint(10**5, 10**12))])
    return ("-" if r.random() < 0.1 else "") + y


def _leap(y):
    n = int(y)
    if n < 0:
        n = -n - 1          # 1 BC is the year before 1
    return n % 4 == 0 and (n % 100 != 0 or n % 400 == 0)


def _tz(r, p=0.4):
    if r.random() >= p:
        return ""
    return r.choice(["Z", "+00:00", "-00:00", "+14:00", "-14:00", "+01:00", "-05:30", "%s%02d:%02d" % (r.choice("+-"), r.randint(0, 13), r.randint(0, 59))])


def _date(r):
    y = _year(r)
    m = r.randint(1, 12)
    n = [31, 29 if _leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    if r.random() < 0.3:
        m, n = 2, 29 if _leap(y) else 28
    return "%s-%02d-%02d" % (y, m, r.choice([1, n, n, r.randint(1, n)]))


def _time(r):
    q = r.random()
    if q < 0.1:
        return r.choice(["24:00:00", "24:00:00.0", "24:00:00.000"])
    t = r.choice(["00:00:00", "23:59:59", "%02d:%02d:%02d" % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])
    return t + ("." + _digits(r, r.choice([1, 3, 6, 9, 12])) if r.random() < 0.3 else "")


def _duration(r):
    n = lambda: str(r.choice([0, 1, 9, 10, 365, 100000]))
    d = [n() + u for u in "YMD" if r.random() < 0.5]
    t = [n() + u for u in "HM" if r.random() < 0.5] + ([n() + ("." + _digits(r, r.choice([1, 3])) if r.random() < 0.5 else "") + "S"] if r.random() < 0.5 else [])
    if not d and not t:
        d = [n() + r.choice("YMD")]
    if r.random() < 0.1:
        t = ["1." + _digits(r, 80) + "S"]
    return ("-" if r.random() < 0.2 else "") + "P" + "".join(d) + ("T" + "".join(t) if t else "")


def _int(lo, hi):
    def f(r):
        a = -10**24 if lo is None else lo
        b = 10**24 if hi is None else hi
        v = r.choice([a, b, a + 1, b - 1, r.randint(a, b), max(a, min(b, r.randint(-3, 3)))])
        if r.random() < 0.1 and hi is None:
            v = r.randrange(10 ** r.choice([31, 60, 300]), 10**301)
        elif r.random() < 0.1 and lo is None:
            v = -r.randrange(10 ** r.choice([31, 60, 300]), 10**301)
        s = str(v)
        q = r.random()
        if q < 0.05:
            s = ("-" if v < 0 else "") + "000" + str(abs(v))
        elif q < 0.1 and v >= 0:
            s = "+" + s
        return s
    return f


def _double(*more):
    return lambda r: r.choice(["INF", "-INF", "NaN", "0", "-0", "1.5", "-0.25", "1e10", "1E-5", "+3.0", ".5", "5.", "1.0e+20", "00.10", "-1e-10", "1E+05",
                               "%d.%dE%d" % (r.randint(-99, 99), r.randint(0, 999), r.randint(-30, 30)), *more])


def _uri(r):
    """A random member of the lexical space, from the grammar of RFC 3987."""
    ch = lambda extra="": r.choice(["a", "Z", "0", "-", ".", "_", "~", "%20", "%C3%BC", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", "ü", "日", "😀", "\U0002fffd", "\U000e1000", "\U000efffd", "\uffef", "\ufdf0"] + list(extra))
    seg = lambda lo=0, extra=":@": "".join(ch(extra) for _ in range(r.randint(lo, 4)))
    h = lambda n: ":".join("%x" % r.randrange(65536) for _ in range(n))
    v4 = lambda: ".".join(str(r.choice([0, 9, 10, 99, 100, 199, 200, 249, 255, r.randint(0, 255)])) for _ in range(4))
    k = r.randint(0, 6)
    v6 = r.choice([h(8), h(6) + ":" + v4(), "::", "::1", "::" + h(r.randint(1, 7)), h(r.randint(1, 7)) + "::", (h(k) + "::" + h(7 - k)) if k else "::" + v4()])
    host = r.choice(["example.org", v4(), "[" + v6 + "]", "[v1F.a:b]", "[V1F.a:b]", "", seg(1, "")])
    auth = r.choice(["", "", "user@", "u:p@", seg(0, ":") + "@"]) + host + r.choice(["", "", ":80", ":", ":65535"])
    path = "".join("/" + seg() for _ in range(r.randint(0, 3)))
    part = r.choice(["//" + auth + path, "/" + seg(1) + path, "", seg(1, "@") + path])
    tail = r.choice(["", "", "?" + seg(0, ":@/?"), "?" + seg() + "\ue000", "?"]) + r.choice(["", "", "#" + seg(0, ":@/?"), "#"])
    return r.choice(["", "http:", "a+b-c.9:", "urn:"]) + part + tail


def _lang(r):
    """A random well-formed language tag."""
    a = lambda lo, hi: "".join(r.choice("abzAZ") for _ in range(r.randint(lo, hi)))
    n = lambda lo, hi: "".join(r.choice("abzAZ019") for _ in range(r.randint(lo, hi)))
    t = [r.choice([a(2, 3), a(2, 3) + "-" + a(3, 3), a(2, 3) + "-" + a(3, 3) + "-" + a(3, 3) + r.choice(["", "-" + a(3, 3)]), a(4, 4), a(5, 8)])]
    if r.random() < 0.3:
        t.append(a(4, 4))
    if r.random() < 0.4:
        t.append(r.choice([a(2, 2), _digits(r, 3)]))
    if r.random() < 0.2:
        t.append(r.choice([n(5, 8), "1" + n(3, 3)]))
    if r.random() < 0.2:
        t.append(r.choice("uU0a") + "-" + n(2, 8) + r.choice(["", "-" + n(2, 8)]))
    if r.random() < 0.2:
        t.append(r.choice("xX") + "-" + n(1, 8) + r.choice(["", "-" + n(1, 8)]))
    return "-".join(t)


def _b64(r):
    import base64
    s = base64.b64encode(bytes(r.randrange(256) for _ in range(r.randint(0, 9)))).decode()
    return " ".join(s[i:i + 4] for i in range(0, len(s), 4)) if r.random() < 0.2 else s


LEX = {     # random members of the lexical spaces (XML Schema)
    "xs:string": lambda r: "".join(r.choice(UCHARS) for _ in range(r.choice([0, 1, 1, 2, 5]))),
    "xs:boolean": lambda r: r.choice(["true", "false", "1", "0"]),
    "xs:decimal": lambda r: r.choice(["3.14", "-7", "+0.0", ".5", "5.", "000", "-.25", _digits(r, 30) + "." + _digits(r, 30)]),
    "xs:integer": _int(None, None), "xs:byte": _int(-128, 127), "xs:short": _int(-32768, 32767), "xs:int": _int(-2**31, 2**31 - 1),
    "xs:long": _int(-2**63, 2**63 - 1), "xs:unsignedByte": _int(0, 255), "xs:unsignedShort": _int(0, 65535), "xs:unsignedInt": _int(0, 2**32 - 1),
    "xs:unsignedLong": _int(0, 2**64 - 1), "xs:positiveInteger": _int(1, None), "xs:nonNegativeInteger": _int(0, None),
    "xs:negativeInteger": _int(None, -1), "xs:nonPositiveInteger": _int(None, 0), "xs:double": _double("1.7976931348623157E308", "-1.7976931348623157E308", "4.9E-324", "1E308", "-1E308", "2.2250738585072014e-308"),
    "xs:float": _double("3.4028234E38", "-3.4028234E38", "3.4028235E38", "-3.4028235E38", "1.4E-45", "1E38", "-1E38", "1.17549435E-38"),
    "xs:date": lambda r: _date(r) + _tz(r), "xs:dateTime": lambda r: _date(r) + "T" + _time(r) + _tz(r), "xs:time": lambda r: _time(r) + _tz(r),
    "xs:gYear": lambda r: _year(r) + _tz(r), "xs:gYearMonth": lambda r: "%s-%02d" % (_year(r), r.randint(1, 12)) + _tz(r),
    "xs:gMonth": lambda r: "--%02d" % r.randint(1, 12) + _tz(r), "xs:gDay": lambda r: "---%02d" % r.choice([1, 31, r.randint(1, 31)]) + _tz(r),
    "xs:gMonthDay": lambda r: r.choice(["--02-29", "--12-31", "--04-30", "--01-01", "--%02d-%02d" % (r.randint(1, 12), r.randint(1, 28))]) + _tz(r),
    "xs:duration": _duration, "xs:base64Binary": _b64, "xs:hexBinary": lambda r: "".join("%02x" % r.randrange(256) for _ in range(r.randint(0, 6))).upper()
    if r.random() < 0.5 else "0fB7",
    "xs:anyURI": lambda r: _uri(r) if r.random() < 0.5 else r.choice(["http://example.org/a?b=c#d", "urn:x:y", "mailto:a@b.c", "../rel/path", "#frag", "?q", "//host/p", "http://[::1]:80/",
                                     "http://user:pw@h:1/%20", "http://192.168.0.1/", "http://exämple.org/ü", "file:///a/b", "a;b=c,d", "x" * 300,
                                     "http://[2001:db8::7]/c=GB?objectClass?one", "tel:+1-816-555-1212", "data:,A%20brief%20note", "/abs"]),
}
ID_CHARS = ["urn:x:", "https://example.org/", "http://a.b/c?d=e&f=g#h", "id with space ", "ÜñÎ", "a/b/../c", "%2F%20",
            "0173-1#02-AAA000#001", "++//==", "日本", "~!$'()*,;", "?", "x" * 60, "???>>>~~~", "urn:a?b>c~ÿÿÿ", "q>>>???þþþ"]
MIMES = ["application/pdf", "image/png", "text/plain", "application/octet-stream", "text/plain; charset=utf-8", "a/b;c=\"d e\"", "image/svg+xml",
         "application/vnd.x-y.z+json;version=1.0", "x/" + "y" * 98, "x/y;p=" + "z" * 64]
LANGS = ["en", "de", "fr", "en-US", "zh", "sr-Latn-RS", "de-CH-1996", "en-x-priv", "x-whatever", "i-klingon", "zh-cmn-Hans-CN", "es-419",
         "sl-rozaj-biske", "en-GB-oed", "art-lojban", "zh-min-nan", "sgn-BE-FR", "i-default", "X-a-b-c", "de-a-value", "qaa-Qaaa-QM-x-southern"]


class Gen:
    def __init__(self, rng, size=1, rich=True, quirks=()):
        """quirks: valid content on which recorded findings show, left out by default: "noshort" (first shell without idShort or
        globalAssetId), "empty" (collections and lists without content), "category" (concepts with a category).
        "values": an additional submodel with many typed values."""
        self.r, self.size, self.rich, self.quirks = rng, size, rich, quirks
        self.n, self.ids = 0, []

    def uid(self):
        self.n += 1
        if self.r.random() < 0.03:
            s = str(self.n)
            return self.r.choice(["L", "ü", "😀"]) * (self.r.choice([200, 600, 2000]) - len(s)) + s
        s = self.r.choice(ID_CHARS) + str(self.n)
        if self.ids and self.r.random() < 0.08:
            s = self.r.choice([self.ids[-1].swapcase(), self.ids[-1] + " ", "e\u0301\u212b" + s, "\ufb01" + s])
            if s in self.ids or len(s) > 2000:
                s = "urn:y:" + str(self.n)
        self.ids.append(s)
        return s

    def name(self):
        self.n += 1
        return self.r.choice(["a", "Ab", "prop_", "X9_", "longName", "Z", "q" * 120, "a__b"]) + str(self.n)

    def text(self):
        return self.r.choice(["text", "Ä<b>&amp;</b>", "line1 line2", "'\"", "✓ unicode", "t" * 50] + UCHARS)

    def chance(self, p):
        return self.rich and self.r.random() < p

    def ext_ref(self, value=None):
        keys = [{"type": "GlobalReference", "value": value or self.uid()}]
        if value is None and self.chance(0.2):
            keys.append({"type": "FragmentReference", "value": "frag"})
        d = {"type": "ExternalReference", "keys": keys}
        if value is None and self.chance(0.1):
            d["referredSemanticId"] = self.ext_ref("urn:sem")
        return d

    def model_ref(self, type_=None, value=None):
        keys = [{"type": type_ or self.r.choice(["Submodel", "AssetAdministrationShell", "ConceptDescription"]),
                 "value": value or self.uid()}]
        if type_ is None and keys[0]["type"] == "Submodel":
            if self.chance(0.4):
                keys.append({"type": "SubmodelElementCollection", "value": "coll"})
                if self.chance(0.5):
                    keys.append({"type": "Property", "value": "prop"})
            elif self.chance(0.3):
                keys += [{"type": "SubmodelElementList", "value": "list"}, {"type": "Property", "value": "3"}]
            elif self.chance(0.3):
                keys += [{"type": "File", "value": "file"}, {"type": "FragmentReference", "value": "f"}]
        return {"type": "ModelReference", "keys": keys}

    def ref(self):
        return self.model_ref() if self.r.random() < 0.5 else self.ext_ref()

    def langs(self, maxlen=100):
        ls = self.r.sample(LANGS, self.r.randint(1, 2)) if self.r.random() < 0.8 else [_lang(self.r)]
        return [{"language": l, "text": self.text()[:maxlen]} for l in ls]

    def value(self, vt=None):
        vt = vt or self.r.choice(list(LEX))
        return vt, LEX[vt](self.r)

    def semantics(self, d, p=0.3):
        if self.chance(p):
            d["semanticId"] = self.ext_ref("urn:semantic:" + str(self.r.randint(0, 5)))
            if self.chance(0.3):
                d["supplementalSemanticIds"] = [self.ext_ref()]

    def extension(self):
        d = {"name": "ext" + str(self.r.randint(0, 99))}
        if self.chance(0.5):
            d["valueType"], d["value"] = self.value()
        if self.chance(0.3):
            d["refersTo"] = [self.model_ref()]
        self.semantics(d)
        return d

    def qualifier(self):
        vt, v = self.value()
        d = {"type": "q" + str(self.r.randint(0, 99)), "valueType": vt}
        if self.chance(0.7):
            d["value"] = v
        if self.chance(0.5):
            d["kind"] = self.r.choice(["ConceptQualifier", "ValueQualifier"])
        if self.chance(0.3):
            d["valueId"] = self.ext_ref()
        self.semantics(d, 0.2)
        return d

    def referable(self, d, id_short=True, data=False):
        if id_short:
            d["idShort"] = self.name()
        if self.chance(0.15):
            d["displayName"] = self.langs()
        if self.chance(0.15):
            d["description"] = self.langs()
        if self.chance(0.1):
            d["extensions"] = [self.extension()]
        if data and self.chance(0.1):
            d["category"] = self.r.choice(["CONSTANT", "PARAMETER", "VARIABLE"])

    def dataspec(self, definition=True):
        c = {"modelType": "DataSpecificationIec61360",
             "preferredName": [{"language": self.r.choice(["en", "en-GB", "EN", "EN-us", "en-Latn-US-x-a"]), "text": "name"}]}
        if self.chance(0.3):
            c["shortName"] = [{"language": "en", "text": "short"}]
        if definition or self.chance(0.5):
            c["definition"] = [{"language": "de", "text": "Definition"}, {"language": self.r.choice(["en", "EN", "en-GB"]), "text": "definition"}]
        c["dataType"] = self.r.choice(["STRING", "BOOLEAN", "INTEGER_MEASURE", "REAL_COUNT", "DATE"])
        if c["dataType"] == "INTEGER_MEASURE" or self.chance(0.2):
            c["unit"] = "mm"
        if self.chance(0.2):
            c["unitId"] = self.ext_ref()
        if self.chance(0.2):
            c["valueFormat"] = "NR1..5"
        r = self.r.random()
        if self.rich and r < 0.2:
            c["value"] = "v"
        elif self.rich and r < 0.4:
            c["valueList"] = {"valueReferencePairs": [{"value": "v1", "valueId": self.ext_ref()}]}
        if self.chance(0.2):
            c["levelType"] = {"min": True, "nom": False, "typ": False, "max": True}
        return {"dataSpecification": self.ext_ref("https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3"),
                "dataSpecificationContent": c}

    def admin(self):
        d = {}
        if self.chance(0.7):
            d["version"] = self.r.choice(["0", "1", "12", "9999"])
            if self.chance(0.5):
                d["revision"] = self.r.choice(["3", "0", "10"])
        if self.chance(0.2):
            d["creator"] = self.ext_ref()
        if self.chance(0.3):
            d["templateId"] = self.uid()
        return d

    def specific_asset_id(self):
        d = {"name": "sn" + str(self.r.randint(0, 9)), "value": self.uid()}
        if self.chance(0.3):
            d["externalSubjectId"] = self.ext_ref()
        self.semantics(d, 0.2)
        return d

    def element(self, t, depth, id_short=True, sem=True):
        d = {"modelType": t}
        self.referable(d, id_short, t in DATA_TYPES)
        if sem:
            self.semantics(d, 0.2)
        if self.chance(0.1):
            d["qualifiers"] = [self.qualifier()]
        if self.chance(0.07):
            d["embeddedDataSpecifications"] = [self.dataspec()]
        if t == "SubmodelElementCollection":
            if depth > 0 and self.r.random() < 0.85:
                d["value"] = self.elements(self.r.randint(1, 2 + self.size), depth - 1)
            elif "empty" not in self.quirks:
                d["value"] = [self.element(self.r.choice(DATA_TYPES), 0)]
        elif t == "SubmodelElementList":
            it = self.r.choice(ALL_TYPES if depth > 0 else ["Property", "Range", "Blob", "Capability"])
            d["typeValueListElement"] = it
            vt = None
            if it in ("Property", "Range"):
                vt = self.r.choice(list(LEX))
                d["valueTypeListElement"] = vt
            if self.chance(0.3):
                d["orderRelevant"] = self.r.random() < 0.5
            if depth > 0 and self.r.random() < 0.85 or "empty" not in self.quirks:
                items = []
                for _ in range(self.r.randint(1, 2)):
                    e = self.element(it, max(0, depth - 1), False, False)
                    if vt:
                        e["valueType"] = vt
                        for k in ("value", "min", "max"):
                            if k in e:
                                e[k] = LEX[vt](self.r)
                    items.append(e)
                d["value"] = items
                if self.chance(0.3):
                    s = self.ext_ref("urn:listsem")
                    d["semanticIdListElement"] = s
                    for e in items:
                        if self.r.random() < 0.5:
                            e["semanticId"] = json.loads(json.dumps(s))
                            e.pop("supplementalSemanticIds", None)
        elif t == "Entity":
            if self.r.random() < 0.5:
                d["entityType"] = "CoManagedEntity"
            else:
                d["entityType"] = "SelfManagedEntity"
                if self.r.random() < 0.6:
                    d["globalAssetId"] = self.uid()
                else:
                    d["specificAssetIds"] = [self.specific_asset_id()]
            if depth > 0 and self.r.random() < 0.5:
                d["statements"] = self.elements(self.r.randint(1, 2), depth - 1)
        elif t == "BasicEventElement":
            d["observed"] = self.model_ref()
            d["direction"] = self.r.choice(["input", "output"])
            d["state"] = self.r.choice(["on", "off"])
            if self.chance(0.3):
                d["messageTopic"] = "topic"
            if self.chance(0.3):
                d["messageBroker"] = self.model_ref()
            if self.chance(0.3):
                d["lastUpdate"] = _date(self.r) + "T" + _time(self.r) + self.r.choice(["Z", "+00:00", "-00:00"])
            if self.chance(0.3):
                d["minInterval"] = _duration(self.r)
                d["maxInterval"] = _duration(self.r)
        elif t == "Operation":
            for k in ("inputVariables", "outputVariables", "inoutputVariables"):
                if self.r.random() < 0.4:
                    d[k] = [{"value": self.element(self.r.choice(DATA_TYPES), 0)}]
        elif t == "Property":
            d["valueType"], v = self.value()
            if self.r.random() < 0.85:
                d["value"] = v
            if self.chance(0.2):
                d["valueId"] = self.ext_ref()
        elif t == "MultiLanguageProperty":
            if self.r.random() < 0.85:
                d["value"] = self.langs()
            if self.chance(0.2):
                d["valueId"] = self.ref()
        elif t == "Range":
            vt = self.r.choice(list(LEX))
            d["valueType"] = vt
            if self.r.random() < 0.8:
                d["min"] = LEX[vt](self.r)
            if self.r.random() < 0.8:
                d["max"] = LEX[vt](self.r)
        elif t == "ReferenceElement":
            if self.r.random() < 0.85:
                d["value"] = self.ref()
        elif t in ("RelationshipElement", "AnnotatedRelationshipElement"):
            d["first"], d["second"] = self.ref(), self.ref()
            if t.startswith("Ann") and self.r.random() < 0.6:
                d["annotations"] = [self.element(x, 0) for x in self.r.sample(DATA_TYPES, self.r.randint(1, 2))]
        elif t == "Blob":
            d["contentType"] = self.r.choice(MIMES)
            if self.r.random() < 0.8:
                d["value"] = self.r.choice(["QUJD", "AAECAwQ=", "//8="])
        elif t == "File":
            d["contentType"] = self.r.choice(MIMES)
            if self.r.random() < 0.85:
                d["value"] = self.r.choice(["/aasx/files/a.pdf", "file:///x.png", "http://example.org/f.txt"])
        return d

    def elements(self, n, depth):
        return [self.element(self.r.choice(ALL_TYPES), depth) for _ in range(n)]

    def submodel(self, full=False):
        d = {"modelType": "Submodel", "id": self.uid()}
        self.referable(d, self.r.random() < 0.85)
        if self.chance(0.3):
            d["administration"] = self.admin()
        if self.chance(0.3):
            d["kind"] = self.r.choice(["Instance", "Template"])
        self.semantics(d, 0.4)
        if self.chance(0.1):
            q = self.qualifier()
            if d.get("kind") == "Template" and self.r.random() < 0.5:
                q["kind"] = "TemplateQualifier"
            d["qualifiers"] = [q]
        depth = self.r.randint(1, 2 + (self.size > 1))
        if full:
            ts = list(ALL_TYPES)
            self.r.shuffle(ts)
        else:
            ts = [self.r.choice(ALL_TYPES) for _ in range(self.r.randint(1, 3 + 2 * self.size))]
            if all(t in ("Capability", "Operation") for t in ts):   # "populated": at least one element with a value
                ts.insert(self.r.randint(0, len(ts)), "Property")
        d["submodelElements"] = [self.element(t, depth) for t in ts]
        return d

    def values(self, n=100):
        """A submodel with many typed values, texts and names."""
        els = []
        for _ in range(n):
            t = self.r.choice(["Property", "Property", "Property", "Range", "MultiLanguageProperty", "File", "BasicEventElement"])
            e = {"modelType": t, "idShort": self.name()}
            if self.r.random() < 0.2:
                e["extensions"] = [{"name": self.r.choice([" ", "\t ", "n" * 128, "😀" * 128, " n ", "\ue000"] + UCHARS)}]
            if self.r.random() < 0.1:
                e["qualifiers"] = [{"type": self.r.choice([" ", "q" * 128, "ü" * 128, "\n"]), "valueType": "xs:string", "value": self.r.choice(UCHARS)}]
            if t == "Property":
                e["valueType"], e["value"] = self.value()
            elif t == "Range":
                e["valueType"], e["min"] = self.value()
                e["max"] = LEX[e["valueType"]](self.r)
            elif t == "MultiLanguageProperty":
                e["value"] = self.langs()
            elif t == "BasicEventElement":
                e.update(observed=self.model_ref("Submodel"), direction="output", state="on", minInterval=_duration(self.r), maxInterval=_duration(self.r),
                         lastUpdate=_date(self.r) + "T" + _time(self.r) + self.r.choice(["Z", "+00:00", "-00:00"]))
            else:
                e["contentType"], e["value"] = self.r.choice(MIMES), self.r.choice(["/aasx/files/a.pdf", "file:///C:/a%20b.txt", "file:/a/b", "file://host.example.com/a", "/" + "a" * 1999, "/a//b", "/%41"])
            els.append(e)
        return {"modelType": "Submodel", "id": self.uid(), "submodelElements": els}

    def shell(self, submodels):
        d = {"modelType": "AssetAdministrationShell", "id": self.uid()}
        self.referable(d, self.r.random() < 0.8)
        if self.chance(0.3):
            d["administration"] = self.admin()
        ai = {"assetKind": self.r.choice(["Instance", "Type", "NotApplicable"])}
        k = self.r.random()
        if k < 0.65:
            ai["globalAssetId"] = self.uid()
        if k >= 0.4:
            ai["specificAssetIds"] = [self.specific_asset_id() for _ in range(self.r.randint(1, 2))]
        if self.chance(0.3):
            ai["assetType"] = self.uid()
        if self.r.random() < 0.5:
            ai["defaultThumbnail"] = {"path": "/aasx/files/thumb.png", "contentType": "image/png"}
        d["assetInformation"] = ai
        if self.chance(0.15):
            d["derivedFrom"] = self.model_ref("AssetAdministrationShell")
        if self.chance(0.1):
            d["embeddedDataSpecifications"] = [self.dataspec()]
        d["submodels"] = [self.model_ref("Submodel", s["id"]) for s in submodels]
        if self.chance(0.2):
            d["submodels"][0]["referredSemanticId"] = self.ext_ref("urn:semantic:1")
        return d

    def concept(self):
        d = {"modelType": "ConceptDescription", "id": self.uid()}
        self.referable(d, self.r.random() < 0.8)
        if self.chance(0.6):
            d["embeddedDataSpecifications"] = [self.dataspec()]
            if "category" in self.quirks and self.chance(0.3):
                d["category"] = "PROPERTY"
        if self.chance(0.3):
            d["isCaseOf"] = [self.ext_ref()]
        return d

    def env(self, full=None):
        n_sm = self.r.randint(1, 2 + self.size)
        if full is None:
            full = self.r.random() < 0.5
        sms = [self.submodel(full and i == 0) for i in range(n_sm)]
        if "values" in self.quirks:
            sms.append(self.values())
        n_sh = self.r.randint(1, 1 + self.size)
        shells = []
        for i in range(n_sh):
            k = self.r.randint(1, len(sms))
            sub = self.r.sample(sms, k)
            if i == 0 and full and sms[0] not in sub:
                sub.insert(0, sms[0])
            shells.append(self.shell(sub))
        if "noshort" not in self.quirks:
            shells[0].setdefault("idShort", self.name())
            shells[0]["assetInformation"].setdefault("globalAssetId", self.uid())
        cds = [self.concept() for _ in range(self.r.randint(0, 1 + self.size))]
        return {"shells": shells, "submodels": sms, "cds": cds}


_cache = {}


def dataset(key):
    """Deterministic dataset from a JSON-able key [seed, size, rich, full] or [.., quirks]."""
    k = json.dumps(key)
    if k not in _cache:
        seed, size, rich, full = key[:4]
        q = key[4] if len(key) > 4 else ()
        _cache[k] = Gen(random.Random(f"dataset:{seed}"), size, bool(rich), q).env(full=bool(full))
    return _cache[k]


def environment(ds):
    d = {}
    if ds["shells"]:
        d["assetAdministrationShells"] = ds["shells"]
    if ds["submodels"]:
        d["submodels"] = ds["submodels"]
    if ds["cds"]:
        d["conceptDescriptions"] = ds["cds"]
    return d


# -- XML -------------------------------------------------------------------------------------------------------------
ITEM = {"keys": "key", "submodels": "reference", "displayName": "langStringNameType", "description": "langStringTextType",
        "extensions": "extension", "qualifiers": "qualifier", "specificAssetIds": "specificAssetId",
        "supplementalSemanticIds": "reference", "refersTo": "reference", "isCaseOf": "reference",
        "embeddedDataSpecifications": "embeddedDataSpecification", "preferredName": "langStringPreferredNameTypeIec61360",
        "shortName": "langStringShortNameTypeIec61360", "definition": "langStringDefinitionTypeIec61360",
        "valueReferencePairs": "valueReferencePair", "inputVariables": "operationVariable",
        "outputVariables": "operationVariable", "inoutputVariables": "operationVariable", "value": "langStringTextType"}


def _esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def _lower(s):
    return s[0].lower() + s[1:]


def _xml(tag, v, out, wrap_value=False):
    if isinstance(v, dict):
        out.append(f"<{tag}>")
        if tag == "dataSpecificationContent":
            inner = _lower(v["modelType"])
            out.append(f"<{inner}>")
            for k, x in v.items():
                if k != "modelType":
                    _xml(k, x, out)
            out.append(f"</{inner}>")
        else:
            for k, x in v.items():
                if k == "modelType":
                    continue
                if tag == "operationVariable" and k == "value":
                    out.append("<value>")
                    _xml(_lower(x["modelType"]), x, out)
                    out.append("</value>")
                else:
                    _xml(k, x, out)
        out.append(f"</{tag}>")
    elif isinstance(v, list):
        out.append(f"<{tag}>")
        for x in v:
            if isinstance(x, dict) and "modelType" in x:
                _xml(_lower(x["modelType"]), x, out)
            else:
                _xml(ITEM.get(tag, "item"), x, out)
        out.append(f"</{tag}>")
    elif isinstance(v, bool):
        out.append(f"<{tag}>{'true' if v else 'false'}</{tag}>")
    else:
        out.append(f"<{tag}>{_esc(v)}</{tag}>")


def to_xml(env, tag="environment"):
    out = []
    _xml(tag, env, out)
    s = "".join(out)
    return f'<?xml version="1.0" encoding="UTF-8"?>\n' + s.replace(f"<{tag}>", f'<{tag} xmlns="{NS}">', 1)


def elements_of(sm):
    """(idShortPath, element) of every addressable element that has an idShort path made of collections only."""
    def rec(els, prefix):
        for e in els or []:
            if "idShort" not in e:
                continue
            p = prefix + e["idShort"]
            yield p, e
            if e["modelType"] == "SubmodelElementCollection":
                yield from rec(e.get("value"), p + ".")
            elif e["modelType"] == "Entity":
                yield from rec(e.get("statements"), p + ".")
    return list(rec(sm.get("submodelElements"), ""))
