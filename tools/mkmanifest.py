#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification (TLC): trace validation of recorded parses"
T = {
    "C01": "TLA+ specification of calls (TLC): trace validation of recorded calls on enumerated, mutated and hostile texts",
    "C09": "TLA+ specification (TLC): trace validation of families of texts that differ in layout, case or quoting",
    "C11": "TLA+ specification of calls (TLC): model checking, and trace validation of concurrent histories of calls",
    "C24": "TLA+ specification (TLC): trace validation of recorded relation queries",
    "C25": "TLA+ specification (TLC): exhaustive table of text forms enumerated by TLC and validated",
    "C26": "TLA+ specification (TLC): trace validation of all orders of families of declarations; laws model checked on the specification",
    "C28": "TLA+ specification (TLC): trace validation of families of documents that write one relationship in different ways; laws model checked on the specification",
}
NOTE = ("Every recorded call of the real library on the texts explored is checked to be a behaviour of the specification; the texts are all members of the "
        "families enumerated by TLC (spec/Scopes.tla) plus seeded random ones. Beyond those texts it is a sample. Trusted: TLC, the recording harness, and the "
        "specification as the statement of intent.")
N = {
    "C01": "No recorded call panics, aborts, overflows a 2 MB stack or runs over 20 s, on enumerated families, mutated and hostile texts; other texts are not covered. Trusted: TLC and the recording harness.",
    "C11": "The specification of calls is model checked; recorded histories (two processes, 3 and 8 threads, thousands of calls on similar texts) are validated against it. Schedules are those that happened. Trusted: TLC, the recording harness.",
    "C24": NOTE + " The query is reached through the guarded hook verif_table_refs.",
    "C25": "All probes of the enumerated table of spellings and near spellings are run and compared; other strings are not covered. Trusted: TLC and the recording harness.",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="sh tools/setup.sh",
         hooks=dict(guard="dbml_verif", enable='RUSTFLAGS="--cfg dbml_verif"', source_commits=["dd8f08ed69604a106f5cb98c452d7eee00f8f2cc"]),
         checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py --prop %s --tier quick" % p["id"], thorough_cmd="python3 tools/check.py --prop %s --tier thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=T.get(p["id"], TRACE), level="model_checking", level_note=N.get(p["id"], NOTE)) for p in props],
         not_applicable=[],
         notes="tools/check.py drives every check; a violation is reproduced with 'python3 tools/check.py --replay FILE'. known_findings.txt lists the repaired defects.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
