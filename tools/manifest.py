#!/usr/bin/env python3
"""Source of MANIFEST.json (run from /verif: python3-vt tools/manifest.py)."""
import json
T={
"C01":("stateful property-based testing against a reference model, plus exhaustive small cases","point and mark are checked after every command of each generated history; out-of-range arguments are compared with the model's clamped result"),
"C02":("fuzzing: random programs, mutated and arbitrary bytes, huge and deep scripts, under a time and memory watchdog","no panic, abort, hang or runaway in any generated case; a watchdog confirms hangs by running the case again on its own"),
"C03":("stateful model-based property testing, plus exhaustive small buffers","text, point and mark after every insert, delete and kill compared with a byte-exact reference model"),
"C04":("stateful model-based property testing, plus exhaustive small buffers","text, point, mark and remembered match after every motion compared with a reference model"),
"C05":("stateful model-based property testing, plus exhaustive small buffers","results of the four searches compared with a reference that scans all match starts"),
"C06":("stateful model-based property testing over search histories","replace-match after any history compared with the model's remembered match"),
"C07":("stateful model-based property testing, plus exhaustive small buffers","mark and region commands compared with a reference model"),
"C08":("stateful model-based property testing, metamorphic interleaving of queries","query values compared with a reference model, state compared before and after; one known finding (current-column)"),
"C09":("property-based testing against independent reference functions","values compared with independent implementations of the documented functions, and purity of the calls"),
"C10":("differential property testing: whole, stepwise, split and traced runs","four ways to run the same program must agree in text, positions, value, error and trace"),
"C11":("property-based fault injection: every kind of failing instruction in generated programs","state before and after the failing instruction, and every detail of the reported error"),
"C12":("exhaustive enumeration of argument counts and kinds per function, and random calls","accepted exactly if the call fits the signature, for every function, count and combination of kinds"),
"C13":("differential property testing between syntaxes","independent renderings of one program must parse to it and run alike"),
"C14":("round-trip property testing with an oracle for what each syntax can express","write/read round trips, chains through texted parse, and refusal of what cannot be expressed"),
"C15":("metamorphic property testing of layouts, exhaustive and random string literals","equivalent layouts and spellings must parse to the same program"),
"C16":("mutation fuzzing against independent reference readers","scripts accepted exactly when a reference reader accepts them, then read alike; rejection leaves texts and files untouched"),
"C17":("model-based property testing of file sets with failing and missing files","files, reports and exit status compared with running the script on each content separately"),
"C18":("property-based testing of the command line over all option combinations","standard output, exit status and the whole directory compared with what the options ask for"),
"C19":("property-based testing of the command line with read-back of the printed values","printed values are read back and compared with the values the library computes"),
"C20":("differential property testing of the MCP tool, handler and stdio server","replies compared with the library's result for each request, in sequences and pipelined"),
"C21":("model-based property testing of the MCP tool with simulated rounds","files, reply and number of rounds compared with a simulation"),
"C22":("concurrent and interleaved property testing under the race detector, differential over orders","every job's result is the same alone, concurrently, interleaved and in other orders; no data race reported"),
"C23":("property-based and exhaustive differential testing of three documentation interfaces","all functions, categories and generated unknown names, repeated, in four interfaces"),
"C24":("property-based testing of verdicts with expectations right or wrong in one respect","verdicts, counts and exit status compared with an independent judgement"),
"C25":("property-based testing: algebraic laws, list histories against a slice model, print/read round trip","equality against an independent comparison, all earlier lists re-checked after each operation"),
"C26":("model-based property testing of JSON-RPC sessions with a server process","generated sessions of valid, invalid and unknown requests; every reply matched to its request, announced schemas against the documented parameters"),
}
checks=[]
for line in open("properties.jsonl"):
    i=json.loads(line)["id"]
    tech,note=T[i]
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",
      technique=tech,level="exploration",level_note="Search over generated inputs, no proof: "+note+". Trusted: the reference model and generators in /verif/harness, the Go toolchain."))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],
  notes="All checks run the Go harness in /verif/harness, built against /repo's working tree by check.sh. VERIF_SEED selects the random choices. ./check.sh replay FILE repeats a violation. Known findings are in known_findings.txt.")
json.dump(m,open("MANIFEST.json","w"),indent=1)
try:
    import jsonschema; jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json"))); print("ok",len(checks))
except ImportError: pass
