#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the harness has checks for."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
have = subprocess.run([here + "/build/target/debug/fcbcheck", "list"], capture_output=True, text=True).stdout.split()
TRUST = "Generated search, so it shows no violation on the cases explored; it trusts the CityJSON parser (cjseq2), the FlatBuffers runtime and the oracle in harness/src."
T = {
 "C01": ("property-based round trip over generated datasets", ""), "C02": ("property-based round trip over generated metadata", ""),
 "C03": ("property-based round trip over generated geometries", ""), "C04": ("property-based round trip over generated appearances", ""),
 "C05": ("property-based round trip over generated attribute tables", ""), "C06": ("property-based round trip over generated templates and instances", ""),
 "C07": ("property-based round trip over generated extensions", ""),
 "C08": ("model-based testing of spatial queries against a linear scan", ""),
 "C09": ("model-based testing of attribute queries against a linear scan", ""),
 "C10": ("model-based differential testing against a sorted multimap", ""),
 "C11": ("model-based differential testing against a linear scan", ""),
 "C12": ("property-based round trip and order comparison", ""),
 "C13": ("differential testing of the HTTP reader against the local reader, with injected request faults", ""),
 "C14": ("differential testing of reader variants over generated call histories", ""),
 "C15": ("property-based testing with an independent layout parser", ""),
 "C16": ("mutation fuzzing and enumerated truncation with panic, hang and allocation monitors", ""),
 "C17": ("property-based testing of the built command-line tool", ""),
 "C18": ("metamorphic testing over writer options and input order", ""),
 "C20": ("mutation-based property testing of the writer with altered datasets and failing outputs", ""),
 "C21": ("property-based testing over generated schemas and index lists, comparing every accessor", ""),
 "C22": ("property-based testing of the built statistics tool over generated directories", ""),
 "C19": ("property-based differential testing of the CityJSON input readers", ""),
}
FAULT = {"C16"}
m = {"version": 1, "setup_cmd": "./check build", "checks": [], "not_applicable": []}
for i in ids:
    if i in have:
        t, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": t, "level": "exploration", "level_note": (n + " " + TRUST).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
m["notes"] = "No hooks: the checks use the public API and the built command-line tools only."
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
