"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "aas_test_engines/test_cases/v3_0/"
IF = V + "interfaces/"

prop("C01", "A conformant, populated server is reported compliant",
 "When a server answers every read request of its service profile exactly as the AAS HTTP API prescribes and is populated (every shell refers to a submodel it serves, every submodel has at least one element with a value), a server check reports compliant: no finding above a warning, every valid request counted as accepted and every invalid request counted as rejected. This holds whatever valid data the server stores, however it encodes cursors and sizes pages, and however the transport delays, splits, chunks, compresses or redirects its answers.",
 ["inputs","configurations","schedules"],
 "every valid repository content x page size and cursor format x profile x benign transport behaviour (latency, segmentation, chunking, gzip, redirects)",
 "The repository's tests run the server check only in dry mode and against an unreachable host; no test ever drives an operation against a server that answers.",
 [V+"api.py", IF+"*.py", "aas_test_engines/http.py", V+"parse.py"],
 [("operation suites (setup, negative calls, positive tests)", IF+"*.py"),
  ("prefix providers and profile tables", V+"api.py"), ("URL and query construction", "aas_test_engines/http.py: Request.make_url, HttpClient.send")],
 "the result tree and the tally returned by a server check, and the exit status of check_server")

prop("C02", "A server that deviates in an answer is never reported compliant",
 "If a server deviates in its answer to a request of a test, the check of that operation is reported as an error and the tally counts that test as failed (if the deviation already spoils the preparation of the operation, the operation is reported as an error and counts nothing). Deviations are: an unexpected status code; a body that is not JSON or lacks the prescribed envelope; a metamodel document that lacks a required attribute, carries an unknown one or has a value of the wrong JSON type (value-only and by-path metadata answers need only be JSON containers); a different shell or submodel than the one requested by its identifier; entries which the requested idShort filter excludes, or none although the requested filter or limit selects some; more entries than the requested page limit; rejecting a valid cursor, level or extent; accepting an invalid parameter (an invalid limit, level, extent, identifier, assetIds or includeConceptDescriptions value of any operation that takes it: servers which always do so are noticed); for binary answers (thumbnail, attachment) only a status of 500 or above. A status of 500 or above is reported with the highest severity.",
 ["inputs","fault_sequences","configurations"],
 "every operation of every profile x every request of that operation x every deviation kind x any repository content",
 "No test feeds a deviating response into a server check, so nothing shows that a deviation on any particular request of any particular operation is noticed.",
 [IF+"*.py", V+"api.py", V+"generate.py", V+"parse.py", V+"adapter.py"],
 [("status and payload checks", IF+"shared.py: invoke, invoke_and_decode, extract_json"),
  ("positive test bodies", IF+"*.py"), ("negative call generation", V+"generate.py")],
 "level of the operation's subtree and the tally of a server check")

prop("C03", "Every server check ends with a verdict whatever the server or network does",
 "A server check always returns a result tree and a tally after a bounded number of requests and a bounded time, however the server or the network misbehaves at whatever point: refused, reset, truncated, stalled, garbled, oversized or malformed answers, redirect loops, and syntactically valid but arbitrary JSON. A transport failure of any request is reported as a finding that makes the check non-compliant, never as an uncaught exception and never silently. Only an interrupt by the user ends the check early: it reaches the caller and no further request is sent.",
 ["fault_sequences","inputs","schedules"],
 "every sequence of transport faults and arbitrary response payloads at every request index, for every profile",
 "Tests exercise one unreachable host; the failure of a request in the middle of a check, a stalled connection or a malformed body is never produced.",
 ["aas_test_engines/http.py", V+"api.py", IF+"shared.py", "aas_test_engines/result.py"],
 [("transport call", "aas_test_engines/http.py: HttpClient.send"), ("exception containment", "aas_test_engines/result.py: ContextManager.__exit__; "+V+"api.py")],
 "return or exception of the server check, number of requests and virtual time used")

prop("C04", "A fault is confined to the operation and test it hits",
 "A server failure that affects only requests of one operation changes only that operation's part of the report: all other operations are still checked with exactly the requests, findings and counts they have on a healthy server. Within an operation whose preparation succeeded, a failure of a single test's requests leaves every other test of that operation executed and reported as on a healthy server.",
 ["fault_sequences","configurations"],
 "every profile x every choice of faulted requests x every fault kind (5xx, transport failure, malformed payload)",
 "Confinement is a relation between a faulted and a healthy run of the whole suite; no test performs either.",
 [V+"api.py", V+"generate.py", "aas_test_engines/result.py"],
 [("per-operation and per-test contexts", V+"api.py: execute_tests, _execute*"), ("abort/exception handling", "aas_test_engines/result.py")],
 "report subtrees per operation, compared between faulted and fault-free runs")

prop("C05", "Filter and dry-run bound exactly what is sent and reported",
 "A dry run sends nothing at all and still lists every selected operation. With a filter, exactly the operations whose names match an include pattern (or all when there is none) and no exclude pattern are checked and reported, in profile order, each with the same requests, findings and counts it has in an unfiltered check of the same server. No request belonging to an unselected operation is ever sent.",
 ["configurations","fault_sequences"],
 "every filter expression x every profile x dry or live x healthy or faulty server",
 "Tests cover the filter predicate on a handful of strings and the dry run without observing the network; the effect of a filter on the traffic of a live check is never observed.",
 ["aas_test_engines/config.py", V+"api.py"],
 [("filter", "aas_test_engines/config.py: TestCaseFilter"), ("selection and dry handling", V+"api.py: execute_tests, _check_server")],
 "requests seen by the server and the report tree")

prop("C06", "Everything sent to the server obeys the configured wire contract",
 "Every request of a server check is a body-less GET to the configured host under its base path, with the configured path prefix removed where it applies as a whole segment, carrying every configured header and honouring the TLS verification setting, and goes through the client object the caller supplied, including its overridden sending behaviour. This holds for every request of every operation, including those sent while preparing an operation and those that follow faults.",
 ["configurations","fault_sequences","inputs"],
 "every host form, base path, header set, prefix, TLS setting and client subclass x every request of every profile, healthy or faulty server",
 "Tests check URL construction for single requests with the transport mocked away; they never observe headers or follow a client through a whole check.",
 ["aas_test_engines/http.py", V+"api.py", IF+"*.py", "aas_test_engines/__main__.py"],
 [("request construction", "aas_test_engines/http.py"), ("client derivation", "aas_test_engines/http.py: HttpClient.descend")],
 "bytes arriving at the simulated server")

prop("C07", "The tally agrees with the report and counts every test exactly once",
 "The returned tally, the summary lines in the report and the report itself agree: per operation, every invalid call is counted exactly once as rejected or accepted and every valid test exactly once as accepted or rejected, according to the level of its entry in the report. Whichever tests fail, abort or hit a transport fault, the number of tests counted for an operation whose preparation succeeded is the same as on a healthy server, and operations whose preparation failed contribute nothing.",
 ["fault_sequences","configurations"],
 "every profile x filter x fault sequence",
 "The tally is only ever produced by live checks, which the tests never run.",
 [V+"api.py", V+"generate.py", "aas_test_engines/result.py"],
 [("tally", V+"api.py: _execute, execute_tests")],
 "tally, summary lines and per-operation entries of the report")

prop("C08", "The report tree records exactly what happened, in every rendering",
 "Under any nesting and order of steps, in which any step may write findings, abort, raise or be interrupted, the report contains every finding exactly once, under the step that produced it and in order; each entry's severity is the maximum of its own and its descendants'; an aborted step ends, its siblings still run; a step left by an exception it does not contain is not recorded, the nearest enclosing step which contains exceptions records the exception instead; interrupts always reach the caller and leave later reports unaffected. The structured, text and HTML renderings show the same entries, nesting and severities, the structured one restores to an identical report, and no message content can break a rendering.",
 ["histories","fault_sequences","inputs"],
 "every sequence of open/write/abort/raise/close steps with arbitrary messages and levels, and interruption at any point",
 "Tests build a few fixed trees; sequences mixing aborts, contained and propagating exceptions and interrupts at arbitrary points, and their renderings, are not covered.",
 ["aas_test_engines/result.py"],
 [("context stack", "aas_test_engines/result.py: ContextManager, start, write, abort"), ("renderings", "aas_test_engines/result.py: AasTestResult.to_*")],
 "the result object and its renderings", [("open steps", "stack of steps currently being recorded")])

prop("C09", "Checks running concurrently in one process do not influence each other",
 "When several file and server checks run at the same time in different threads of one process, each returns exactly the report, tally and traffic it produces when run alone, for every interleaving of the threads and whichever of them fails. No check raises because of another one.",
 ["schedules","fault_sequences"],
 "every interleaving of 2..4 concurrent checks (server checks with different hosts, profiles and filters; JSON, XML and AASX file checks), with faults in some of them",
 "All tests are single-threaded; an interleaving is never exercised.",
 ["aas_test_engines/result.py", V+"api.py", "aas_test_engines/file.py", V+"model.py", "aas_test_engines/reflect.py"],
 [("step bookkeeping shared by all checks", "aas_test_engines/result.py"), ("module-level registries", "aas_test_engines/reflect.py, "+IF+"*.py")],
 "per-thread results compared with solo runs", [("open steps", "per-thread stack of open report steps")])

prop("C10", "A check's outcome does not depend on what ran before it",
 "A check of the same input gives the same report, tally and traffic every time in the life of a process and in every process, no matter which checks ran before it, and no matter whether those completed, met faults, raised or were interrupted at any point. In particular an interrupted or failed check leaves nothing behind that a later check shows or is changed by, and checks do not modify the data or configuration handed to them.",
 ["histories","crash_points","fault_sequences"],
 "every history of checks (files, servers, all profiles) with interrupts and faults at arbitrary points, hash seeds and process restarts",
 "Tests never interrupt a check and never compare a check in a used process with one in a fresh process.",
 ["aas_test_engines/result.py", V+"api.py", V+"model.py", "aas_test_engines/http.py", "aas_test_engines/file.py"],
 [("module-level state", "aas_test_engines/result.py, aas_test_engines/reflect.py, "+IF+"shared.py"), ("per-suite state", IF+"*.py")],
 "results of the same check at different points of a history")

prop("C11", "A damaged or incomplete AASX package always gets a truthful verdict",
 "Checking an AASX file whose producer or storage failed (truncated at any byte, torn or lost writes, flipped bits, stale or zeroed blocks, missing, duplicated or reordered members, wrong relationships) always returns a result. The result is OK exactly when the package can be read and every relationship target exists and every specification part it leads to is itself reported OK when checked alone; content that could not be read is never reported as OK.",
 ["crash_points","fault_sequences","inputs"],
 "every package layout x every producer crash point x every storage fault on its bytes",
 "Tests use a dozen hand-made package directories, all intact zip files.",
 ["aas_test_engines/file.py", "aas_test_engines/opc.py"],
 [("package traversal", "aas_test_engines/opc.py"), ("spec selection", "aas_test_engines/file.py: check_aasx_data, _check_files")],
 "result of check_aasx_file")

prop("C12", "A damaged JSON or XML file always gets a truthful verdict",
 "Checking a JSON or XML file whose bytes are truncated, torn, bit-flipped, duplicated, wrongly encoded, delivered in short reads or interrupted by a read error always ends with a result (or the read error itself), never with another exception. The result is not OK whenever the delivered bytes are not a well-formed document, and otherwise equals the result of checking the parsed document, for every model type the caller asks for; a valid document is OK in whatever encoding, layout and chunks it is delivered.",
 ["crash_points","fault_sequences","inputs"],
 "every document x every storage or read fault on its bytes x chunking of reads x model type",
 "Tests check well-formed documents plus a single syntactically invalid one per format.",
 ["aas_test_engines/file.py", V+"parse.py", V+"adapter.py", V+"model.py", V+"submodel_templates.py", V+"parse_submodel.py"],
 [("file decoding", "aas_test_engines/file.py: check_json_file, check_xml_file")],
 "result of check_json_file / check_xml_file")

prop("C13", "The command line tells the truth through exit status and output",
 "The command exits with status 0 only if the check found the file or server compliant and the complete report was written in the requested format; it exits non-zero in every other case, including unreadable input, unreachable or faulty servers, wrong arguments and failures to write the report to standard output. Whenever a check could be performed and the output accepts data, the report is printed completely and parses back to the same findings.",
 ["fault_sequences","inputs","configurations"],
 "every input x format x output format x input fault, network fault and output fault (full disk, closed pipe, short writes) at every byte offset",
 "Tests run the command line on a few inputs with a healthy output; no test makes reading, the network or the output fail or compares the output with the findings.",
 ["aas_test_engines/__main__.py", "aas_test_engines/file.py", "aas_test_engines/result.py"],
 [("entry points", "aas_test_engines/__main__.py: main, run_file_test, run_api_test"), ("renderings", "aas_test_engines/result.py")],
 "exit status and standard output of the command")

prop("C14", "Metamodel verdicts follow the specification's types and constraints",
 "A document is reported OK exactly when it satisfies the metamodel's structural rules and all of its constraints.",
 ["inputs"], "every document", "Tests sample a finite set of valid and invalid documents.",
 [V+"model.py", V+"parse.py", "aas_test_engines/reflect.py"], [("constraints", V+"model.py: check_*")], "result of a data check")
prop("C15", "JSON and XML renderings of the same document get the same verdict",
 "Two documents that express the same environment in JSON and in XML are both reported OK or both reported not OK.",
 ["inputs"], "every environment", "Tests check the formats separately on few samples.",
 [V+"adapter.py", V+"parse.py"], [("adapters", V+"adapter.py")], "results of the data checks")
prop("C16", "Typed values are accepted exactly when they are in the lexical space",
 "A value is accepted for a declared data type exactly when it belongs to that type's XML Schema lexical space.",
 ["inputs"], "every string x every data type", "Tests enumerate a list of strings per type.",
 ["aas_test_engines/data_types.py"], [("validators", "aas_test_engines/data_types.py")], "result of a data check")
prop("C17", "Supported submodel templates are enforced on every matching submodel",
 "A submodel that claims a supported template is reported OK only if it has the template's mandatory elements with the right kinds and cardinalities.",
 ["inputs"], "every submodel claiming a supported template", "Tests check a few instances per template.",
 [V+"submodel_templates.py", V+"parse_submodel.py"], [("template parsing", V+"parse_submodel.py")], "result of a data check")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
