#!/usr/bin/env python3
# Writes MANIFEST.json from the list below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, "
checks = {
 "C01": (TECH + "concurrent and repeated calls against a fresh transformer as reference, race detector on simulated interleavings",
         "real transform, jsonschema and their dependencies under a simulated scheduler; sampled interleavings at statement granularity"),
 "C02": (TECH + "map iteration order under the seed; agreement of repeated evaluations, of reordered schemas and of schemas without one top-level property",
         "real code; the runtime's map order is seeded and sampled, property orders and reductions are sampled"),
 "C03": (TECH + "scripted validator (verdict, error, delay per call) with concurrent calls; the recorded history of validator calls is checked against what each caller got",
         "real transform with the validator replaced at its interface; sampled verdict patterns and interleavings"),
 "C04": (TECH + "scripted wall clock (jumps, drift, standstill); each time field is checked against the readings of its call",
         "real code on a simulated clock; sampled clock scripts and interleavings"),
 "C05": (TECH + "scripted builders (error, panic, delay, nested load); the call/build history is checked against the cache's contract",
         "real cache and singleflight under a simulated scheduler; sampled histories"),
 "C06": (TECH + "concurrent loads, walks, validations and transformer builds over generated file graphs against lone loads, race detector",
         "real jsonschema, singleflight and gojsonschema; sampled graphs and interleavings"),
 "C07": (TECH + "faults at any file operation or HTTP exchange of concurrent loads (errors, error status, cut or empty content, delay), then a healthy round; answers against fault-free ones, open files and connections from the history",
         "real jsonschema, gojsonschema, net/http client and files; the network is a stand-in at http.DefaultTransport; one known finding in a dependency"),
 "C08": (TECH + "concurrent loads over generated cyclic and acyclic graphs; deadlock, step bound and memory bound decide termination, harmless files against lone loads",
         "real loader; sampled graphs, starting points and interleavings; termination means within 3 million steps"),
 "C09": (TECH + "walk functions that fail at any call, stall or walk again, several walks at once; calls against a tree made with encoding/json",
         "real loader and walks; map order seeded; sampled schemas, failure points and interleavings"),
 "C10": (TECH + "concurrent and repeated validations with shared and separate validators under seeded map order; verdict and error text against lone validations and against gojsonschema used directly",
         "real validator; sampled schemas, documents and interleavings"),
 "C11": (TECH + "generations under seeded map order, scripted clock and a history of other, failed and interrupted generations in the same process; all output bytes against a first generation by a fresh process",
         "real generator, command and dependencies on a simulated disk; sampled schemas, options, histories and orders"),
 "C12": (TECH + "errors, torn writes, full and read-only disk at sampled file operations of a generation; when success is reported all output bytes are compared with an undisturbed run",
         "real generator, command and dependencies; file operations are intercepted below package os; a failed close or write may lose data"),
 "C13": (TECH + "crash, power loss and I/O errors at sampled file operations, one or several in a row, then a healthy generation that must succeed with the bytes of a first undisturbed run",
         "real generator, command and dependencies; a crash keeps what was written, a power loss also drops unsynced data; sampled crash points"),
 "C14": (TECH + "bulk writers generated by the current tree with failing, short and slow writers, all timings of sender and receiver, several writers at once; error channel, leftover goroutines and the container, decoded by an independent reader, against the items sent",
         "real generated code, gogen-avro and snappy for fifteen generated types; two known findings (no items, nil item of a type with a required object)"),
 "C15": (TECH + "concurrent container writes of shared and different values to writers that fail, cut short or stall at any call; the container, decoded by an independent reader, against the value; race detector",
         "real generated code, gogen-avro and snappy for fifteen generated types; sampled values, failing calls and interleavings"),
 "C16": (TECH + "scripted wall clock (jumps, drift, standstill) during concurrent single and bulk writes; the decoded write times against the log of clock readings within each call",
         "real generated code on a simulated clock; sampled clock scripts, requested times and interleavings"),
 "C17": (TECH + "damaged documents (cut, flipped, dropped, duplicated, replaced, nested) mixed with intact ones in concurrent histories; no panic, bounded steps, intact answers as with a fresh transformer",
         "real transform; sampled damage, histories and interleavings"),
 "C22": (TECH + "repeated generations, hit by errors, crashes and power loss, amid hand-written files, output of other schemas and the schema files; after each every foreign file is compared and new names are looked for",
         "real generator, command and dependencies on a simulated disk; sampled foreign files, options, histories and failing operations"),
}
na = {
 "C18": "what an operation computes is a pure function of its argument; no schedule, clock, I/O or fault takes part (the current-time operation is C04)",
 "C19": "merging of all-of and one-of is a pure function of the schema text; its concurrency and fault aspects are C06 and C07",
 "C20": "whether generated code represents the schema is a relation between schema and program text; no schedule, time, I/O or fault takes part (reproducibility and completeness of the files are C11 to C13, behaviour of generated writers C14 to C16)",
 "C21": "mapping of flags to settings is a pure function of the command line; the command's behaviour under I/O faults and crashes is C12 and C13",
}
m = {
 "version": 1,
 "setup_cmd": "bash /verif/build.sh tr gen avro",
 "checks": [{
   "property": i,
   "quick_cmd": f"bash /verif/check {i} quick",
   "thorough_cmd": f"bash /verif/check {i} thorough",
   "evidence_file": f"/verif/evidence/{i}.json",
   "technique": t, "level": "exploration", "level_note": n} for i, (t, n) in sorted(checks.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: the seams are placed by go build -overlay over copies of /repo's files and of a few standard library files made at check time.",
}
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in checks:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check under construction")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
