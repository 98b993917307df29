#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
EXTRA = {
    "C18": ("property-based round-trip and metamorphic testing of generated values through six serialisers and several embeddings", None),
    "C19": ("grammar-based mutation fuzzing of serialised documents with an acceptance oracle", None),
    "C21": ("property-based testing with a counting global allocator as monitor", None),
    "C22": ("differential property-based testing across feature builds", None),
    "C23": ("generated client programs type-checked against an expected-verdict oracle", None),
    "C24": ("fault injection into generated camera models, verdict compared with an oracle", None),
    "C25": ("stateful model-based testing over generated operation histories and thread schedules", None),
    "C28": ("fuzzing with arbitrary bit patterns, and fault injection of single undefined values with a propagation oracle", None),
    "C29": ("property-based differential testing of what is written and read against documents composed without the library", None),
    "C30": ("property-based testing of cost: a scalar type that counts operations, a counting allocator and the thread's processor clock against linear bounds", None),
    "C31": ("metamorphic property-based testing: the same scene in two systems of units, results equal to the last digit after conversion", None),
    "C32": ("metamorphic property-based testing: mirrored scenes, equal to the last digit, and scenes in another world frame or image origin, equal within rounding", None),
    "C27": ("property-based testing of generic instantiations (non-Copy, double-double, dual-number scalars) against a running-error reference", None),
}
BASE = "property-based testing against a double-double reference model, with shrinking"
NOTE = ("Generated-input search: the property held on every case generated (counts, non-triviality rule and samples in the "
        "evidence file), not on all inputs. Trusts the reference model in harness/src/model.rs and its forward error bounds, "
        "proptest, and rustc/nalgebra as installed.")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "check.sh rebuilds cam-geom from /repo's working tree on every run; ./check.sh --replay ID FILE evaluates one recorded case. No hooks in /repo are needed: every property is observed through the public interface."}
for p in props:
    i = p["id"]
    if i == "C23" or os.path.exists(os.path.join(here, "harness/src/bin", i.lower() + ".rs")):
        t, n = EXTRA.get(i, (BASE, None))
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n or NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check is built for it yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
