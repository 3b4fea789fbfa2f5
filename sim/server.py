"""Reference AAS server: the read operations of the four SSP-002 profiles, written from AAS Part 2 and doc/api.md."""
import base64
import copy
import json
import re
from urllib.parse import unquote, parse_qs, urlsplit

from .world import Resp

SSP = "https://admin-shell.io/aas/API/3/0/"
PROFILES = {
    "aasrepo": SSP + "AssetAdministrationShellRepositoryServiceSpecification/SSP-002",
    "smrepo": SSP + "SubmodelRepositoryServiceSpecification/SSP-002",
    "aas": SSP + "AssetAdministrationShellServiceSpecification/SSP-002",
    "sm": SSP + "SubmodelServiceSpecification/SSP-002",
}
ELEMENT_OPS = ["GetAllSubmodelElements", "GetAllSubmodelElements-Metadata", "GetAllSubmodelElements-ValueOnly",
               "GetAllSubmodelElements-Reference", "GetAllSubmodelElements-Path", "GetSubmodelElementByPath",
               "GetSubmodelElementByPath-Metadata", "GetSubmodelElementByPath-ValueOnly",
               "GetSubmodelElementByPath-Reference", "GetSubmodelElementByPath-Path", "GetFileByPath"]
BYID = ["GetSubmodelById", "GetSubmodelById-Metadata", "GetSubmodelById-ValueOnly", "GetSubmodelById-Reference",
        "GetSubmodelById-Path"]
TAIL = ["GenerateSerializationByIds", "GetDescription"]
# operations of each profile (from the specification's profile tables, read operations)
OPERATIONS = {
    "aasrepo": ["GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference",
                "GetAssetAdministrationShellById", "GetAssetAdministrationShellById-Reference", "GetAssetInformation",
                "GetThumbnail", "GetAllSubmodelReferences"] + BYID + ELEMENT_OPS + TAIL,
    "smrepo": ["GetAllSubmodels", "GetAllSubmodels-Metadata", "GetAllSubmodels-ValueOnly", "GetAllSubmodels-Reference",
               "GetAllSubmodels-Path"] + BYID + ELEMENT_OPS + TAIL,
    "aas": ["GetAssetAdministrationShell", "GetAssetAdministrationShell-Reference", "GetAssetInformation", "GetThumbnail",
            "GetAllSubmodelReferences"] + BYID + ELEMENT_OPS + TAIL,
    "sm": ["GetSubmodel", "GetSubmodel-Metadata", "GetSubmodel-ValueOnly", "GetSubmodel-Reference", "GetSubmodel-Path"]
          + ELEMENT_OPS + TAIL,
}


def b64e(s, pad=True):
    r = base64.urlsafe_b64encode(s.encode()).decode()
    return r if pad else r.rstrip("=")


def b64d(s):
    """Strict base64url, padding optional. Raises ValueError."""
    t = s.rstrip("=")
    if len(s) - len(t) > 2 or not re.fullmatch(r"[A-Za-z0-9_-]*", t) or len(t) % 4 == 1 or not t:
        raise ValueError("not base64url")
    return base64.urlsafe_b64decode(t + "=" * (-len(t) % 4)).decode("utf-8")


class Err(Exception):
    def __init__(self, status, text="error"):
        self.status, self.text = status, text


CONTAINER = {"SubmodelElementCollection": "value", "SubmodelElementList": "value", "Entity": "statements"}
NO_VALUE = {"Capability", "Operation"}
PATHABLE = {"SubmodelElementCollection", "SubmodelElementList", "Entity"}


class RefServer:
    def __init__(self, profile, ds, opts=None):
        self.profile = profile
        self.ds = ds
        self.o = opts or {}
        self.shells, self.submodels, self.cds = ds["shells"], ds["submodels"], ds["cds"]
        self.base = self.o.get("base", "")
        self.shell = self.shells[0]
        ids = [r["keys"][0]["value"] for r in self.shell["submodels"]]
        self.sm_by_id = {s["id"]: s for s in self.submodels}
        self.single_sm = self.sm_by_id[ids[0]]
        self.memo = {}

    # -- plumbing ---------------------------------------------------------------------------------------------------
    def __call__(self, req):
        try:
            if req.method != "GET":
                raise Err(405, "method not allowed")
            out = self.memo.get(req.target)
            if out is None:
                out = self.memo[req.target] = self.route(req)
            return Resp(out.status, out.body, list(out.headers), out.ctype)
        except Err as e:
            return self.error(e)

    def dumps(self, obj):
        st = self.o.get("json", 0)
        if st == 1:
            return json.dumps(obj, indent=2, ensure_ascii=False).encode()
        if st == 2:
            return json.dumps(obj, separators=(",", ":"), sort_keys=True).encode()
        return json.dumps(obj).encode()

    def ok(self, obj):
        return Resp(200, self.dumps(obj), ctype=["application/json", "application/json; charset=utf-8",
                                                 "application/json;charset=UTF-8"][self.o.get("ctype", 0) % 3])

    def error(self, e):
        st = self.o.get("err", 0) % 3
        if st == 0:
            body = {"messages": [{"code": str(e.status), "correlationId": "c1", "messageType": "Error", "text": e.text,
                                  "timestamp": "2024-01-01T00:00:00Z"}]}
        elif st == 1:
            body = {"messages": [{"text": e.text, "messageType": "Exception"}]}
        else:
            body = {}
        status = e.status
        if self.o.get("err_status") and status == 400:
            status = self.o["err_status"]
        return Resp(status, self.dumps(body))

    def route(self, req):
        u = urlsplit(req.target)
        path = u.path
        if self.base:
            if path != self.base and not path.startswith(self.base + "/"):
                raise Err(404, "outside base path")
            path = path[len(self.base):]
        if path in ("", "/"):
            if self.o.get("superset") and self.profile == "aas":
                return self.r_shell(self.shell, [])
            return Resp(200, b"welcome", ctype="text/plain")
        self.q = parse_qs(u.query, keep_blank_values=True)
        seg = [unquote(s) for s in path.split("/")[1:]]
        if seg and seg[-1] == "":
            seg = seg[:-1]
        p = self.profile
        if seg == ["description"]:
            return self.ok({"profiles": [PROFILES[p]] + (["https://example.org/other/profile"] if self.o.get("more_profiles") else [])})
        if p == "aasrepo":
            if seg[0] == "shells":
                return self.r_shells(seg[1:])
            if seg == ["serialization"]:
                return self.serialization()
        elif p == "smrepo":
            if seg[0] == "submodels":
                return self.r_submodels(seg[1:])
            if seg == ["serialization"]:
                return self.serialization()
            if self.o.get("superset") and seg[0] == "shells":
                return self.r_shells(seg[1:])
        elif p == "aas":
            if seg[0] == "aas":
                if self.o.get("superset") and seg[1:] == ["serialization"]:
                    return self.serialization()
                if self.o.get("superset") and seg[1:2] == ["shells"]:
                    return self.r_shells(seg[2:])
                return self.r_shell(self.shell, seg[1:])
            if seg == ["serialization"]:
                return self.serialization()
        elif p == "sm":
            if seg[0] == "submodel":
                if self.o.get("superset") and seg[1:] == ["serialization"]:
                    return self.serialization()
                if self.o.get("superset") and seg[1:2] == ["shells"]:
                    return self.r_shells(seg[2:])
                return self.r_submodel(self.single_sm, seg[1:])
            if seg == ["serialization"]:
                return self.serialization()
        raise Err(404, "unknown path")

    # -- parameters -------------------------------------------------------------------------------------------------
    def param(self, name):
        v = self.q.get(name)
        return None if v is None else v[-1]

    def p_enum(self, name, allowed):
        v = self.param(name)
        if v is not None and v not in allowed:
            raise Err(400, f"invalid {name}")
        return v

    def level(self):
        return self.p_enum("level", ("core", "deep")) or "deep"

    def extent(self):
        return self.p_enum("extent", ("withBlobValue", "withoutBlobValue")) or "withoutBlobValue"

    def ident(self, s):
        try:
            return b64d(s)
        except ValueError:
            raise Err(400, "invalid identifier encoding")

    def page(self, items, scope):
        lim = self.param("limit")
        n = self.o.get("page", 100)
        if lim is not None:
            if not re.fullmatch(r"[0-9]{1,9}", lim) or int(lim) < 1:
                raise Err(400, "invalid limit")
            n = min(n, int(lim))
        cur = self.param("cursor")
        start = 0
        if cur is not None:
            start = self.cursor_decode(cur, scope)
            if start is None or not 0 <= start <= len(items):
                raise Err(400, "invalid cursor")
        out = items[start:start + n]
        meta = {}
        if start + n < len(items):
            meta["cursor"] = self.cursor_encode(start + n, scope)
        return {"paging_metadata": meta, "result": out}

    def cursor_encode(self, i, scope):
        st = self.o.get("cursor", 0) % 4
        if st == 0:
            return str(i)
        if st == 1:
            return b64e(f"{scope}|{i}")
        if st == 2:
            return f"{scope} & next?={i}+#ü/%20"
        return "page/" + b64e(f"{scope}:{i}", pad=False) + "=="

    def cursor_decode(self, c, scope):
        for i in range(0, 200):
            if self.cursor_encode(i, scope) == c:
                return i
        return None

    # -- shells -----------------------------------------------------------------------------------------------------
    def shell_ref(self, s):
        return {"type": "ModelReference", "keys": [{"type": "AssetAdministrationShell", "value": s["id"]}]}

    def sm_ref(self, s):
        return {"type": "ModelReference", "keys": [{"type": "Submodel", "value": s["id"]}]}

    def filtered_shells(self):
        out = self.shells
        ids = self.param("idShort")
        if ids is not None:
            out = [s for s in out if s.get("idShort") == ids]
        for a in self.q.get("assetIds", []):
            try:
                d = json.loads(b64d(a))
                name, value = d["name"], d["value"]
            except (ValueError, KeyError, TypeError):
                raise Err(400, "invalid assetIds")

            def has(s):
                ai = s["assetInformation"]
                if name == "globalAssetId":
                    return ai.get("globalAssetId") == value
                return any(x["name"] == name and x["value"] == value for x in ai.get("specificAssetIds", []))
            out = [s for s in out if has(s)]
        return out

    def r_shells(self, seg):
        if not seg:
            return self.ok(self.page(self.filtered_shells(), "shells"))
        if seg == ["$reference"]:
            return self.ok(self.page([self.shell_ref(s) for s in self.filtered_shells()], "shellrefs"))
        sid = self.ident(seg[0])
        for s in self.shells:
            if s["id"] == sid:
                return self.r_shell(s, seg[1:])
        raise Err(404, "no such shell")

    def r_shell(self, s, seg):
        if not seg:
            return self.ok(s)
        if seg == ["$reference"]:
            return self.ok(self.shell_ref(s))
        if seg == ["asset-information"]:
            return self.ok(s["assetInformation"])
        if seg == ["asset-information", "thumbnail"]:
            if "defaultThumbnail" not in s["assetInformation"]:
                raise Err(404, "no thumbnail")
            return Resp(200, b"\x89PNG\r\n\x1a\n\xff\x00binary", ctype="image/png")
        if seg == ["submodel-refs"]:
            return self.ok(self.page(s["submodels"], "smrefs"))
        if seg[0] == "submodels" and len(seg) >= 2:
            i = self.ident(seg[1])
            if i in self.sm_by_id and any(r["keys"][0]["value"] == i for r in s["submodels"]):
                return self.r_submodel(self.sm_by_id[i], seg[2:])
            raise Err(404, "no such submodel")
        raise Err(404, "unknown path")

    # -- submodels --------------------------------------------------------------------------------------------------
    def r_submodels(self, seg):
        sms = self.submodels
        if not seg:
            lv, ex = self.level(), self.extent()
            return self.ok(self.page([self.render_sm(s, lv, ex) for s in sms], "sms"))
        if len(seg) == 1 and seg[0].startswith("$"):
            m = seg[0]
            if m == "$metadata":
                return self.ok(self.page([self.meta_sm(s) for s in sms], "sms-m"))
            if m == "$value":
                return self.ok(self.page([self.value_of_list(s.get("submodelElements")) for s in sms], "sms-v"))
            if m == "$reference":
                return self.ok(self.page([self.sm_ref(s) for s in sms], "sms-r"))
            if m == "$path":
                lv = self.level()
                return self.ok(self.page([p for s in sms for p in self.paths(s.get("submodelElements"), lv)], "sms-p"))
            raise Err(404)
        i = self.ident(seg[0])
        if i not in self.sm_by_id:
            raise Err(404, "no such submodel")
        return self.r_submodel(self.sm_by_id[i], seg[1:])

    def r_submodel(self, sm, seg):
        els = sm.get("submodelElements", [])
        if not seg:
            return self.ok(self.render_sm(sm, self.level(), self.extent()))
        if seg == ["$metadata"]:
            return self.ok(self.meta_sm(sm))
        if seg == ["$value"]:
            self.level(), self.extent()
            return self.ok(self.value_of_list(els))
        if seg == ["$reference"]:
            return self.ok(self.sm_ref(sm))
        if seg == ["$path"]:
            return self.ok(self.paths(els, self.level()))
        if seg[0] != "submodel-elements":
            raise Err(404, "unknown path")
        seg = seg[1:]
        if not seg:
            lv, ex = self.level(), self.extent()
            return self.ok(self.page([self.render_el(e, lv, ex) for e in els], "els"))
        if len(seg) == 1 and seg[0].startswith("$"):
            m = seg[0]
            if m == "$metadata":
                return self.ok(self.page([self.meta_el(e) for e in els], "els-m"))
            if m == "$value":
                lv = self.level()
                return self.ok(self.page([self.value_of_el(e) for e in els if e["modelType"] not in NO_VALUE], "els-v"))
            if m == "$reference":
                return self.ok(self.page([self.el_ref(sm, [e]) for e in els], "els-r"))
            if m == "$path":
                return self.ok(self.page(self.paths(els, self.level()), "els-p"))
            raise Err(404)
        chain = self.find(els, seg[0])
        if chain is None:
            raise Err(404, "no such element")
        e = chain[-1]
        rest = seg[1:]
        if not rest:
            return self.ok(self.render_el(e, self.level(), self.extent()))
        if rest == ["$metadata"]:
            if e["modelType"] in NO_VALUE:
                raise Err(404, "not applicable")
            return self.ok(self.meta_el(e))
        if rest == ["$value"]:
            self.level(), self.extent()
            if e["modelType"] in NO_VALUE:
                raise Err(404, "not applicable")
            return self.ok(self.value_of_el(e))
        if rest == ["$reference"]:
            return self.ok(self.el_ref(sm, chain))
        if rest == ["$path"]:
            lv = self.level()
            if e["modelType"] not in PATHABLE:
                raise Err(404, "not applicable")
            return self.ok([e["idShort"]] + self.paths(e.get(CONTAINER[e["modelType"]]), lv, e["idShort"] + "."))
        if rest == ["attachment"]:
            if e["modelType"] != "File":
                raise Err(404, "not a file")
            if "value" not in e:
                raise Err(404, "no attachment")
            return Resp(200, b"%PDF-1.4\xff\xfe\x00 attachment", ctype="application/pdf")
        raise Err(404, "unknown path")

    def find(self, els, path):
        toks = re.findall(r"[^.\[\]]+|\[[0-9]+\]", path)
        chain, cur = [], els
        for t in toks:
            nxt = None
            if t.startswith("["):
                i = int(t[1:-1])
                if cur and i < len(cur):
                    nxt = cur[i]
            else:
                for e in cur or []:
                    if e.get("idShort") == t:
                        nxt = e
                        break
            if nxt is None:
                return None
            chain.append(nxt)
            cur = nxt.get(CONTAINER.get(nxt["modelType"], ""), [])
        return chain or None

    # -- serialisations -----------------------------------------------------------------------------------------------
    def strip_blob(self, e):
        if isinstance(e, dict):
            return {k: self.strip_blob(v) for k, v in e.items()
                    if not (e.get("modelType") == "Blob" and k == "value")}
        if isinstance(e, list):
            return [self.strip_blob(x) for x in e]
        return e

    def render_el(self, e, level, extent, nested=False):
        e = dict(e)
        if level == "core":
            c = CONTAINER.get(e["modelType"])
            if c and c in e:
                if nested:
                    del e[c]
                else:
                    e[c] = [self.render_el(x, level, extent, True) for x in e[c]]
        if extent == "withoutBlobValue":
            e = self.strip_blob(e)
        return e

    def render_sm(self, s, level, extent):
        s = dict(s)
        if "submodelElements" in s:
            s["submodelElements"] = [self.render_el(e, level, extent, True) for e in s["submodelElements"]]
        return s

    def meta_sm(self, s):
        return {k: v for k, v in s.items() if k != "submodelElements"}

    def meta_el(self, e):
        drop = {"Property": ("value", "valueId"), "MultiLanguageProperty": ("value", "valueId"), "Range": ("min", "max"),
                "ReferenceElement": ("value",), "Blob": ("value",), "File": ("value",),
                "SubmodelElementCollection": ("value",), "SubmodelElementList": ("value",), "Entity": ("statements",)}
        return {k: v for k, v in e.items() if k not in drop.get(e["modelType"], ())}

    def value_of_list(self, els):
        return {e.get("idShort", "?"): self.value_raw(e) for e in els or [] if e["modelType"] not in NO_VALUE}

    def value_raw(self, e):
        t = e["modelType"]
        if t == "Property":
            return e.get("value")
        if t == "Range":
            return {k: e[k] for k in ("min", "max") if k in e}
        if t == "MultiLanguageProperty":
            return [{x["language"]: x["text"]} for x in e.get("value", [])]
        if t == "SubmodelElementCollection":
            return self.value_of_list(e.get("value"))
        if t == "SubmodelElementList":
            return [self.value_raw(x) for x in e.get("value", []) if x["modelType"] not in NO_VALUE]
        if t == "Entity":
            d = {"entityType": e["entityType"], "statements": self.value_of_list(e.get("statements"))}
            for k in ("globalAssetId", "specificAssetIds"):
                if k in e:
                    d[k] = e[k]
            return d
        if t == "BasicEventElement":
            return {"observed": e["observed"]}
        if t in ("RelationshipElement", "AnnotatedRelationshipElement"):
            d = {"first": e["first"], "second": e["second"]}
            if "annotations" in e:
                d["annotations"] = self.value_of_list(e["annotations"])
            return d
        if t == "ReferenceElement":
            return e.get("value", {})
        if t in ("Blob", "File"):
            d = {"contentType": e["contentType"]}
            if "value" in e:
                d["value"] = e["value"]
            return d
        return None

    def value_of_el(self, e):
        return {e.get("idShort", "?"): self.value_raw(e)}

    def paths(self, els, level, prefix=""):
        out = []
        for e in els or []:
            if "idShort" not in e:
                continue
            p = prefix + e["idShort"]
            out.append(p)
            if level == "deep" and e["modelType"] in ("SubmodelElementCollection", "Entity"):
                out += self.paths(e.get(CONTAINER[e["modelType"]]), level, p + ".")
        return out

    def el_ref(self, sm, chain):
        keys = [{"type": "Submodel", "value": sm["id"]}]
        for i, e in enumerate(chain):
            keys.append({"type": e["modelType"], "value": e.get("idShort", str(i))})
        return {"type": "ModelReference", "keys": keys}

    # -- serialization ------------------------------------------------------------------------------------------------
    def serialization(self):
        inc = self.param("includeConceptDescriptions")
        if inc is not None and inc not in ("true", "false"):
            raise Err(400, "invalid boolean")
        aas = [self.ident(x) for x in self.q.get("aasIds", [])]
        sms = [self.ident(x) for x in self.q.get("submodelIds", [])]
        known = {s["id"] for s in self.shells}
        for a in aas:
            if a not in known:
                raise Err(404, "no such shell")
        for s in sms:
            if s not in self.sm_by_id:
                raise Err(404, "no such submodel")
        env = {}
        sh = [s for s in self.shells if not (aas or sms) or s["id"] in aas]
        sm = [s for s in self.submodels if not (aas or sms) or s["id"] in sms]
        if sh:
            env["assetAdministrationShells"] = sh
        if sm:
            env["submodels"] = sm
        if inc != "false" and self.cds:
            env["conceptDescriptions"] = self.cds
        return self.ok(env)
