#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.abspath(__file__))
from checks import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("Exploration: holds on every history the workload generated for this tree (seeded by VERIF_SEED); trusts the reference model in "
        "/verif/harness, clang 18 and its AddressSanitizer/UndefinedBehaviorSanitizer runtimes.")
m = {"version": 1, "setup_cmd": "clang++-18 --version && python3 --version",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": PROPS[i].get("technique", "runtime monitoring: sanitizers + online reference-model checker over generated histories"),
                 "level": "exploration", "level_note": PROPS[i].get("note", NOTE)} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": "not claimed yet: its driver is still being built"} for i in ids if i not in PROPS]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
