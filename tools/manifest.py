#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
T = {
 "C01": "online conservation monitor over the token stream, all Unicode scalar values plus random inputs",
 "C02": "online checker of token boundaries against reference segmentation and digit-word rules",
 "C03": "online checker of recorded tags and chars against the documented classification",
 "C04": "online checker of reported ranges against measured extents and text slices",
 "C05": "exactly-once monitor on supplied attributes, by unique value identities",
 "C06": "append-only history checker over resolver runs, by unique value identities",
 "C07": "cross-view consistency monitor (query, find, selections, backwards, rendering)",
 "C08": "type-isolation monitor over look-alike types and extraction of prepared attributes",
 "C09": "matcher monitor: recorded match logs against a reference model, both directions",
 "C10": "matcher composition monitor: recorded match logs against a reference model",
 "C11": "search monitor: ordered result logs against a reference model",
 "C12": "extension monitor: ordered result logs against a reference model",
 "C13": "trim monitor against a reference model",
 "C14": "split partition monitor against a reference model",
 "C15": "selection arithmetic monitor against a reference model, refusals observed",
 "C16": "operation-chain monitor: covered tokens observed by assignment, pairwise equality",
 "C17": "rendering monitor: independent renderer over the recorded history",
 "C18": "assignment monitor against an independent lookup",
 "C19": "amount monitor: independent scanner and decimal arithmetic over the observed tokens",
 "C20": "amount preset monitor: documented examples, explicit configuration, independent scanner",
 "C21": "keyword monitor against an independent per-token decision",
 "C22": "clause partition and role monitor over the observed token history",
 "C23": "tag monitor against the dictionary queried directly",
 "C24": "repetition, interference and concurrency monitor; ThreadSanitizer and Miri with varied schedules",
 "C25": "crash, hang and drop monitor under hostile workloads; AddressSanitizer, overflow checks and Miri",
 "C26": "metamorphic monitor: each resolver alone against all of them among unrelated layers",
}
NOTE = ("Runs the real code on seeded realistic, hostile and stress workloads and judges every execution with an independent oracle; "
        "says nothing about executions it did not observe. Trusts the oracle in /verif/harness, std's Unicode tables and the third-party crates named in the evidence.")
ps = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = [{
    "property": p["id"],
    "quick_cmd": f"bash check.sh {p['id']} quick",
    "thorough_cmd": f"bash check.sh {p['id']} thorough",
    "technique": T[p["id"]],
    "level": "exploration",
    "level_note": NOTE,
} for p in ps]
json.dump({"version": 1, "setup_cmd": "bash check.sh --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything the monitors need is public API."}, open("/verif/MANIFEST.json", "w"), indent=1)
