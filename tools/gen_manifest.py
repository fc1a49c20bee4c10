#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (python3 tools/gen_manifest.py)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: structured and mutated media, coverage-guided tapes, every operation in several source modes, all run-time checks on", "No panic, overflow, abort or non-termination on the generated inputs; work budget counted in edges, so the verdict is deterministic."),
 "C02": ("property-based testing: instrumented work and allocation counters against a bound linear in the input", "Bounds on edges executed and bytes allocated per input byte, with slack; nothing proved about inputs not generated."),
 "C03": ("metamorphic/differential property-based testing: one file through memory, seekable, streaming and file sources with generated read schedules", "Agreement of complete canonical results, on generated, damaged and sample files."),
 "C04": ("differential property-based testing: blocking API against async API under generated read and readiness schedules", "Agreement of complete canonical results and error categories."),
 "C06": ("model-based property-based testing: generated TIFF directories with the expected entry list computed by the generator", "Exact comparison of the reported entries in order."),
 "C11": ("model-based property-based testing: generated GPS directories with an independent model of the interpretation", "Exact comparison of the decoded GPS record."),
 "C12": ("property-based testing: parse/print relations of GPS values against exact integer arithmetic", "Exact integer oracle; floats only at the API boundary."),
 "C13": ("model-based property-based testing: generated ISO-BMFF movies with the expected track fields", "Exact comparison of every reported field."),
 "C16": ("model-based property-based testing: generated motion photos with the trailer's track known", "Exact comparison of hint and track."),
}
T.update(json.load(open(os.path.join(HERE, "tools/manifest_more.json"))) if os.path.exists(os.path.join(HERE, "tools/manifest_more.json")) else {})
mod = open(os.path.join(HERE, "harness/src/props/mod.rs")).read()
have = re.findall(r'\bc\d\d "(C\d\d)"', mod)
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p not in have: continue
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
                   "technique": tech, "level": "exploration", "level_note": note})
na = [{"property": p, "reason": "no check built yet"} for p in props if p not in have]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", [x["property"] for x in na], "not claimed")
