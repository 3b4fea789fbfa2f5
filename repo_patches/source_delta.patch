From 268691423bc3eda70b6388012d8125e6e78f8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:28 +0000
Subject: [PATCH 01/20] fix: keep the stack of open result contexts per thread

---
 aas_test_engines/result.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/result.py b/aas_test_engines/result.py
index 952067d..dae7435 100644
--- a/aas_test_engines/result.py
+++ b/aas_test_engines/result.py
@@ -2,6 +2,7 @@ from typing import List, TypeVar, Union
 from enum import Enum
 import os
 import html
+import threading
 
 T = TypeVar("T")
 
@@ -103,7 +104,13 @@ class AasTestResult:
         return v
 
 
-managers: List["ContextManager"] = []
+class _OpenContexts(threading.local):
+    # one stack per thread, otherwise concurrent checks would write into each other's results
+    def __init__(self):
+        self.managers: List["ContextManager"] = []
+
+
+_open_contexts = _OpenContexts()
 
 
 class ContextManager:
@@ -113,10 +120,11 @@ class ContextManager:
         self.catch_all_exceptions = catch_all_exceptions
 
     def __enter__(self) -> AasTestResult:
-        managers.append(self)
+        _open_contexts.managers.append(self)
         return self.result
 
     def __exit__(self, exc_type, exc_val, traceback):
+        managers = _open_contexts.managers
         m = managers.pop()
         assert m is self
         if exc_val is None:
@@ -149,6 +157,7 @@ def _as_result(message: Union[str, AasTestResult], level: Level):
 
 
 def write(message: Union[str, AasTestResult]):
+    managers = _open_contexts.managers
     if not managers:
         raise RuntimeError("No open context")
     message = _as_result(message, Level.INFO)
-- 
2.43.0


From 29dbe36243650cd4e5b06eb0e42915fa4f4d199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:34 +0000
Subject: [PATCH 02/20] fix: send the configured additional headers

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 1a18b1e..e12d2dd 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -70,6 +70,6 @@ class HttpClient:
             url=host + url,
             method=request.method,
             data=body,
-            headers=request.headers,
+            headers={**request.headers, **self.additional_headers},
             verify=self.verify,
         )
-- 
2.43.0


From b06b8bb041343dd064b6075337a54dcd9ca920af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:39 +0000
Subject: [PATCH 03/20] fix: preserve the client's class and prefixes when
 descending

---
 aas_test_engines/http.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index e12d2dd..3703a43 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -3,6 +3,7 @@ import requests
 from requests.models import Response
 from dataclasses import dataclass, field
 from urllib.parse import urlencode
+import copy
 import json
 
 
@@ -45,8 +46,9 @@ class HttpClient:
         self.additional_headers = additional_headers
 
     def descend(self, prefix: str):
-        result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)
-        result.prefixes.append(prefix)
+        # copy instead of constructing anew to preserve subclasses and prefixes which have already been added
+        result = copy.copy(self)
+        result.prefixes = self.prefixes + [prefix]
         return result
 
     def send(self, request: Request) -> Response:
-- 
2.43.0


From ecc72fbcb8f448996ce68f8b74f5a3fa6cfe3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:45 +0000
Subject: [PATCH 04/20] fix: do not wait forever for a server which does not
 respond

---
 aas_test_engines/http.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 3703a43..6f98278 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -37,13 +37,19 @@ class Request:
 class HttpClient:
 
     def __init__(
-        self, host: str, verify: bool = False, remove_path_prefix: str = "", additional_headers: Dict[str, str] = {}
+        self,
+        host: str,
+        verify: bool = False,
+        remove_path_prefix: str = "",
+        additional_headers: Dict[str, str] = {},
+        timeout: Optional[float] = 60.0,
     ):
         self.host = host
         self.verify = verify
         self.remove_path_prefix = remove_path_prefix
         self.prefixes: List[str] = []
         self.additional_headers = additional_headers
+        self.timeout = timeout
 
     def descend(self, prefix: str):
         # copy instead of constructing anew to preserve subclasses and prefixes which have already been added
@@ -74,4 +80,5 @@ class HttpClient:
             data=body,
             headers={**request.headers, **self.additional_headers},
             verify=self.verify,
+            timeout=self.timeout,
         )
-- 
2.43.0


From 90f562e7c03a73f5d4c547fbd206d2a495e3b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:51 +0000
Subject: [PATCH 05/20] fix: encode boolean query parameters as true and false

---
 aas_test_engines/http.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 6f98278..00e0ac7 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -7,6 +7,13 @@ import copy
 import json
 
 
+def _to_query_value(value: any) -> any:
+    # urlencode() would yield 'True' and 'False'
+    if isinstance(value, bool):
+        return "true" if value else "false"
+    return value
+
+
 @dataclass
 class Request:
     path: str
@@ -18,7 +25,7 @@ class Request:
 
     def make_url(self) -> str:
         url = self.path
-        query_params = {k: v for k, v in self.query_parameters.items() if v is not None}
+        query_params = {k: _to_query_value(v) for k, v in self.query_parameters.items() if v is not None}
         if query_params:
             url += "?" + urlencode(query_params)
         return url
-- 
2.43.0


From 9617f76891328a44585bbc5964a86e25682f7cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:53 +0000
Subject: [PATCH 06/20] fix: report failing requests and unexpected responses
 instead of crashing

---
 aas_test_engines/result.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/result.py b/aas_test_engines/result.py
index dae7435..e3ec4c2 100644
--- a/aas_test_engines/result.py
+++ b/aas_test_engines/result.py
@@ -1,4 +1,4 @@
-from typing import List, TypeVar, Union
+from typing import List, Optional, TypeVar, Union
 from enum import Enum
 import os
 import html
@@ -135,7 +135,7 @@ class ContextManager:
             if managers:
                 managers[-1].result.append(self.result)
             return True
-        elif self.catch_all_exceptions:
+        elif self.catch_all_exceptions and isinstance(exc_val, Exception):
             self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL))
             if managers:
                 managers[-1].result.append(self.result)
@@ -164,8 +164,11 @@ def write(message: Union[str, AasTestResult]):
     managers[-1].result.append(message)
 
 
-def start(message: Union[str, AasTestResult], catch_all_exceptions: bool = False) -> ContextManager:
+def start(message: Union[str, AasTestResult], catch_all_exceptions: Optional[bool] = None) -> ContextManager:
     result = _as_result(message, Level.INFO)
+    if catch_all_exceptions is None:
+        # an unexpected exception (e.g. a failing request) shall only end the step it hits, not the whole check
+        catch_all_exceptions = bool(_open_contexts.managers)
     return ContextManager(result, catch_all_exceptions)
 
 
-- 
2.43.0


From 622366cb35cef84923dcf98f3cd9e765cc94d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:28 +0000
Subject: [PATCH 07/20] fix: follow the relationships of parts in the root
 folder of a package

---
 aas_test_engines/opc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index f618451..4c120af 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -100,7 +100,7 @@ def _scan_relationships(
             Level.ERROR,
         )
 
-    if dir:
+    if dir or file:
         result = AasTestResult(f"Checking relationships of {dir}{file}")
     else:
         result = AasTestResult(f"Checking root relationship")
@@ -132,6 +132,8 @@ def _scan_relationships(
         target = normpath(target)
 
         sub_dir, file = splitpath(target)
+        if sub_dir:
+            sub_dir += "/"
         sub_rel = Relationship(type, target)
         result.append(AasTestResult(f"Relationship {sub_rel.target} is of type {sub_rel.type}", Level.INFO))
         parent_rel.sub_rels.append(sub_rel)
@@ -142,7 +144,7 @@ def _scan_relationships(
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
-        r = _scan_relationships(zipfile, sub_rel, sub_dir + "/", file, visited_targets, deprecated_types)
+        r = _scan_relationships(zipfile, sub_rel, sub_dir, file, visited_targets, deprecated_types)
         if r:
             result.append(r)
 
-- 
2.43.0


From bb29d723a39e1e8814d8271f893847a5caec5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:36 +0000
Subject: [PATCH 08/20] fix: report damaged AASX packages instead of crashing

---
 aas_test_engines/file.py | 26 +++++++++++++----------
 aas_test_engines/opc.py  | 46 ++++++++++++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index d1ad9c6..c062d53 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -2,9 +2,10 @@ from typing import List, Dict, TextIO, Union, Any, Set, Optional
 import json
 
 from .result import AasTestResult, Level
-from .opc import Relationship, read_opc
+from .opc import Relationship, PartException, read_opc, read_part
 
 from xml.etree import ElementTree
+import io
 import zipfile
 
 from aas_test_engines.test_cases.v3_0 import json_to_obj, xml_to_obj
@@ -79,16 +80,18 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
         for aasx_spec in spec_rels:
             sub_result = AasTestResult(f"Checking {aasx_spec.target}")
             try:
-                with zipfile.open(aasx_spec.target) as f:
-                    if aasx_spec.target.endswith(".xml"):
-                        r = check_xml_file(f, version)
-                    elif aasx_spec.target.endswith(".json"):
-                        r = check_json_file(f, version)
-                    else:
-                        r = AasTestResult("Unknown filetype", Level.WARNING)
-                    sub_result.append(r)
+                f = io.BytesIO(read_part(zipfile, aasx_spec.target))
+                if aasx_spec.target.endswith(".xml"):
+                    r = check_xml_file(f, version)
+                elif aasx_spec.target.endswith(".json"):
+                    r = check_json_file(f, version)
+                else:
+                    r = AasTestResult("Unknown filetype", Level.WARNING)
+                sub_result.append(r)
             except KeyError:
-                return AasTestResult("File does not exist")
+                sub_result.append(AasTestResult("File does not exist", Level.ERROR))
+            except PartException as e:
+                sub_result.append(AasTestResult(f"{e}", Level.ERROR))
             result.append(sub_result)
     return result
 
@@ -110,7 +113,8 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
     try:
         zip = zipfile.ZipFile(file)
-    except zipfile.BadZipFile as e:
+    except Exception as e:
+        # Besides BadZipFile, a damaged package leads to OSError, ValueError, NotImplementedError, struct.error, ...
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
 
     return check_aasx_data(zip, version)
diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 4c120af..363139d 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -42,6 +42,28 @@ def splitpath(path: str) -> Tuple[str, str]:
     return prefix, suffix
 
 
+class PartException(Exception):
+    """Raised if a part exists but cannot be read"""
+
+
+def read_part(zipfile: zipfile.ZipFile, name: str) -> bytes:
+    try:
+        return zipfile.read(name)
+    except KeyError:
+        raise
+    except Exception as e:
+        # A damaged package leads to many different exceptions: BadZipFile, zlib.error, EOFError, RuntimeError, ...
+        raise PartException(f"Cannot read {name}: {e}")
+
+
+def _read_xml_part(zipfile: zipfile.ZipFile, name: str) -> ElementTree.Element:
+    content = read_part(zipfile, name)
+    try:
+        return ElementTree.fromstring(content)
+    except (ElementTree.ParseError, ValueError, LookupError) as e:
+        raise PartException(f"Invalid xml in {name}: {e}")
+
+
 class Relationship:
 
     def __init__(self, type: str, target: str) -> None:
@@ -63,18 +85,19 @@ def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
     content_types_xml = "[Content_Types].xml"
     result = AasTestResult(f"Checking {content_types_xml}")
     try:
-        with zipfile.open(content_types_xml, "r") as f:
-            content_types = ElementTree.parse(f)
-            expected_tag = f"{NS_CONTENT_TYPES}Types"
-            if content_types.getroot().tag != expected_tag:
-                result.append(
-                    AasTestResult(
-                        f"root must have tag {expected_tag}, got {content_types.getroot().tag}",
-                        Level.ERROR,
-                    )
+        content_types = _read_xml_part(zipfile, content_types_xml)
+        expected_tag = f"{NS_CONTENT_TYPES}Types"
+        if content_types.tag != expected_tag:
+            result.append(
+                AasTestResult(
+                    f"root must have tag {expected_tag}, got {content_types.tag}",
+                    Level.ERROR,
                 )
+            )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
+    except PartException as e:
+        result.append(AasTestResult(f"{e}", Level.ERROR))
 
     return result
 
@@ -88,11 +111,12 @@ def _scan_relationships(
     deprecated_types: Dict[str, str],
 ) -> Optional[AasTestResult]:
     try:
-        with zipfile.open(f"{dir}_rels/{file}.rels", "r") as f:
-            relationships = ElementTree.parse(f).getroot()
+        relationships = _read_xml_part(zipfile, f"{dir}_rels/{file}.rels")
     except KeyError:
         # file does not exist
         return None
+    except PartException as e:
+        return AasTestResult(f"{e}", Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
         return AasTestResult(
-- 
2.43.0


From 01d81d866e38872c7d5a117de057819f56fcf9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 09/20] fix: report undecodable and too deeply nested files
 instead of crashing

---
 aas_test_engines/file.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index c062d53..56036eb 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -25,14 +25,17 @@ def latest_version():
 
 
 def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
-    result, obj = json_to_obj(data, model_type)
+    try:
+        result, obj = json_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Cannot check: nested too deeply", Level.ERROR)
     return result
 
 
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = json.load(file)
-    except json.decoder.JSONDecodeError as e:
+    except (ValueError, RecursionError) as e:
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
     return check_json_data(data, version, model_type)
 
@@ -40,14 +43,17 @@ def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: s
 def check_xml_data(
     data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
 ) -> AasTestResult:
-    result, obj = xml_to_obj(data, model_type)
+    try:
+        result, obj = xml_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Cannot check: nested too deeply", Level.ERROR)
     return result
 
 
 def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = ElementTree.fromstring(file.read())
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, ValueError, LookupError) as e:
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
     return check_xml_data(data, version)
 
-- 
2.43.0


From 9935cb11a7c072cac1d0798d9494dd871ffb3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:07 +0000
Subject: [PATCH 10/20] fix: check xml files for the requested model type

---
 aas_test_engines/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 56036eb..60c931b 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -55,7 +55,7 @@ def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: st
         data = ElementTree.fromstring(file.read())
     except (ElementTree.ParseError, ValueError, LookupError) as e:
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
-    return check_xml_data(data, version)
+    return check_xml_data(data, version, model_type)
 
 
 TYPE_AASX_ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
-- 
2.43.0


From 571b13981c7884361f875a482c32170585184cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:46 +0000
Subject: [PATCH 11/20] fix: follow all relationships to a part which is
 referred to several times

---
 aas_test_engines/opc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 363139d..945e77f 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -1,4 +1,4 @@
-from typing import List, Set, Optional, Tuple, Dict
+from typing import List, Optional, Tuple, Dict
 from .result import AasTestResult, Level
 import zipfile
 from xml.etree import ElementTree
@@ -107,7 +107,7 @@ def _scan_relationships(
     parent_rel: Relationship,
     dir: str,
     file: str,
-    visited_targets: Set[str],
+    visited_targets: Dict[str, Relationship],
     deprecated_types: Dict[str, str],
 ) -> Optional[AasTestResult]:
     try:
@@ -163,8 +163,9 @@ def _scan_relationships(
         parent_rel.sub_rels.append(sub_rel)
         if target in visited_targets:
             result.append(AasTestResult(f"Already checked {target}", Level.INFO))
+            sub_rel.sub_rels = visited_targets[target].sub_rels
             continue
-        visited_targets.add(target)
+        visited_targets[target] = sub_rel
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
@@ -179,7 +180,7 @@ def _check_relationships(
     zipfile: zipfile.ZipFile, root_rel: Relationship, deprecated_types: Dict[str, str]
 ) -> AasTestResult:
     result = AasTestResult("Checking relationships")
-    visited_targets = set()
+    visited_targets: Dict[str, Relationship] = {}
     r = _scan_relationships(zipfile, root_rel, "", "", visited_targets, deprecated_types)
     if r:
         result.append(r)
-- 
2.43.0


From 7b0cf1707523c6bd4b21fa1938738daa577acac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:52 +0000
Subject: [PATCH 12/20] fix: report too deeply nested relationships instead of
 crashing

---
 aas_test_engines/opc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 945e77f..eaff7b1 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -181,7 +181,10 @@ def _check_relationships(
 ) -> AasTestResult:
     result = AasTestResult("Checking relationships")
     visited_targets: Dict[str, Relationship] = {}
-    r = _scan_relationships(zipfile, root_rel, "", "", visited_targets, deprecated_types)
+    try:
+        r = _scan_relationships(zipfile, root_rel, "", "", visited_targets, deprecated_types)
+    except RecursionError:
+        r = AasTestResult("Relationships are nested too deeply", Level.ERROR)
     if r:
         result.append(r)
     else:
-- 
2.43.0


From 040f363450705aa8dd831c077a6ee1c0d05d44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:58 +0000
Subject: [PATCH 13/20] fix: reject dates with too many digits instead of
 crashing

---
 aas_test_engines/data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 6785f9b..ff59132 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -102,7 +102,11 @@ def is_xs_date(value: str) -> bool:
     match = _DATE_PREFIX_RE.match(value)
     assert match is not None
 
-    year = int(match.group(1))
+    try:
+        year = int(match.group(1))
+    except ValueError:
+        # too many digits
+        return False
     month = int(match.group(2))
     day = int(match.group(3))
 
-- 
2.43.0


From 04ddf781a548bf96d39ec3858aa469c4344d6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:20 +0000
Subject: [PATCH 14/20] fix: print reports which contain characters stdout
 cannot encode

---
 aas_test_engines/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index ddd0e53..5d01f27 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -182,6 +182,10 @@ def main():
         print(f"Unknown command '{command}', must be one of {', '.join(commands)}")
         sys.exit(1)
 
+    # Reports quote the checked content, which may contain characters the output cannot encode
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
     remaining_args = sys.argv[2:]
     commands[command](remaining_args)
 
-- 
2.43.0


From 206063007b8b4631cd44fffac5515ea6e8140634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:20 +0000
Subject: [PATCH 15/20] fix: let interrupts pass which hit while a context is
 being closed

---
 aas_test_engines/result.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/result.py b/aas_test_engines/result.py
index e3ec4c2..8ba8553 100644
--- a/aas_test_engines/result.py
+++ b/aas_test_engines/result.py
@@ -125,8 +125,9 @@ class ContextManager:
 
     def __exit__(self, exc_type, exc_val, traceback):
         managers = _open_contexts.managers
-        m = managers.pop()
-        assert m is self
+        # Closes the inner contexts as well: an interrupt can hit before they are able to close themselves
+        while managers.pop() is not self:
+            pass
         if exc_val is None:
             if managers:
                 managers[-1].result.append(self.result)
-- 
2.43.0


From b1886f86f9326e752fb311137fc8fc275f4985a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:12 +0000
Subject: [PATCH 16/20] fix: check model types other than Environment

---
 aas_test_engines/file.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 60c931b..8114fea 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -9,6 +9,8 @@ import io
 import zipfile
 
 from aas_test_engines.test_cases.v3_0 import json_to_obj, xml_to_obj
+from aas_test_engines.test_cases.v3_0.model import symbol_table
+from aas_test_engines.test_cases.v3_0.parse import parse_and_check_json, parse_and_check_xml
 from aas_test_engines.test_cases.v3_0.submodel_templates import supported_templates
 
 JSON = Union[str, int, float, bool, None, Dict[str, Any], List[Any]]
@@ -26,7 +28,11 @@ def latest_version():
 
 def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
-        result, obj = json_to_obj(data, model_type)
+        if model_type == "Environment":
+            result, obj = json_to_obj(data, model_type)
+        else:
+            # submodel templates can only be checked within an environment
+            result, obj = parse_and_check_json(symbol_table.lookup(model_type), data)
     except RecursionError:
         return AasTestResult("Cannot check: nested too deeply", Level.ERROR)
     return result
@@ -44,7 +50,11 @@ def check_xml_data(
     data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
 ) -> AasTestResult:
     try:
-        result, obj = xml_to_obj(data, model_type)
+        if model_type == "Environment":
+            result, obj = xml_to_obj(data, model_type)
+        else:
+            # submodel templates can only be checked within an environment
+            result, obj = parse_and_check_xml(symbol_table.lookup(model_type), data)
     except RecursionError:
         return AasTestResult("Cannot check: nested too deeply", Level.ERROR)
     return result
-- 
2.43.0


From dcc72c9835e7de44c0a4408e74968587444d3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 17/20] fix: report documents which cannot be checked instead
 of crashing

---
 aas_test_engines/file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 8114fea..3749229 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -35,6 +35,9 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
             result, obj = parse_and_check_json(symbol_table.lookup(model_type), data)
     except RecursionError:
         return AasTestResult("Cannot check: nested too deeply", Level.ERROR)
+    except Exception as e:
+        # e.g. a submodel which does not have the structure its template requires
+        return AasTestResult(f"Cannot check: {e}", Level.CRITICAL)
     return result
 
 
@@ -57,6 +60,9 @@ def check_xml_data(
             result, obj = parse_and_check_xml(symbol_table.lookup(model_type), data)
     except RecursionError:
         return AasTestResult("Cannot check: nested too deeply", Level.ERROR)
+    except Exception as e:
+        # e.g. a submodel which does not have the structure its template requires
+        return AasTestResult(f"Cannot check: {e}", Level.CRITICAL)
     return result
 
 
-- 
2.43.0


From a91f3ef692be4d29585007188e9864a68b1799d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:21 +0000
Subject: [PATCH 18/20] fix: accept abbreviated IPv6 addresses in URIs

---
 aas_test_engines/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index ff59132..14cb5ce 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -216,7 +216,7 @@ def _construct_matches_xs_any_uri() -> Pattern[str]:
     dec_octet = "([0-9]|[1-9][0-9]|1[0-9]{2}|2[0-4][0-9]|25[0-5])"
     ipv4address = f"{dec_octet}\\.{dec_octet}\\.{dec_octet}\\.{dec_octet}"
     ls32 = f"({h16}:{h16}|{ipv4address})"
-    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{3}}{h16})?::{h16}:{ls32}|(({h16}:){{4}}{h16})?::{ls32}|(({h16}:){{5}}{h16})?::{h16}|(({h16}:){{6}}{h16})?::)"
+    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{0,2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{0,3}}{h16})?::{h16}:{ls32}|(({h16}:){{0,4}}{h16})?::{ls32}|(({h16}:){{0,5}}{h16})?::{h16}|(({h16}:){{0,6}}{h16})?::)"
     unreserved = "[a-zA-Z0-9\\-._~]"
     ipvfuture = f"[vV][0-9A-Fa-f]+\\.({unreserved}|{sub_delims}|:)+"
     ip_literal = f"\\[({ipv6address}|{ipvfuture})\\]"
-- 
2.43.0


From fe41a2ad0a1e98d1a8a4bc653eca6e79f0ef7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 19/20] fix: accept the largest float and double values

---
 aas_test_engines/data_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 14cb5ce..ad3ae1e 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -18,13 +18,14 @@ def _is_bounded_double(s: str, min: float, max: float) -> bool:
         return True
     try:
         v = float(s)
-        return v > min and v < max
+        return v >= min and v <= max
     except ValueError:
         return False
 
 
 def is_float(s: str) -> bool:
-    return _is_bounded_double(s, -3.4028234663852886e38, 3.4028234663852886e38)
+    # everything which is rounded to the largest float or less
+    return _is_bounded_double(s, -3.4028235677973362e38, 3.4028235677973362e38)
 
 
 def is_double(s: str) -> bool:
-- 
2.43.0


From 83ea89fb16e1b467c37ddf6823843fb59a577014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:18 +0000
Subject: [PATCH 20/20] fix: do not accept NaN and Infinity in JSON files

---
 aas_test_engines/file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 3749229..6f81cf1 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -41,9 +41,14 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
     return result
 
 
+def _reject_constant(name: str):
+    # Python's json module accepts these, but they are not part of JSON
+    raise ValueError(f"{name} is not a JSON value")
+
+
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
-        data = json.load(file)
+        data = json.load(file, parse_constant=_reject_constant)
     except (ValueError, RecursionError) as e:
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
     return check_json_data(data, version, model_type)
-- 
2.43.0

