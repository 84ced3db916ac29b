#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from tools.checks import CHECKS
NA = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert all(c in ids for c in CHECKS), [c for c in CHECKS if c not in ids]
checks = [dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
               technique=CHECKS[i].get("technique", "runtime monitoring: online reference-model oracle over randomized executions of the real code, under UBSan and an address sanitizer"),
               level=CHECKS[i].get("level", "exploration"), level_note=CHECKS[i].get("note", "Held on the executions counted in the evidence, nothing beyond them. Trusts the reference model in /verif/harness, the MinGW compiler and Wine; the address checker sees heap and stack red zones, not intra-object overflows."))
          for i in ids if i in CHECKS]
na = [dict(property=i, reason=NA.get(i, "No check has been built for it yet; runtime monitoring applies.")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/vbuild.py san && python3 tools/vbuild.py plain", checks=checks, not_applicable=na,
         notes="No hooks in /repo: instrumentation is added by compiler flags (-fsanitize=undefined, -fsanitize=kernel-address with the runtime in harness/rt) and linker wraps. Checks rebuild /repo's working tree into /verif/.build and run it under Wine as uid nobody in a throw-away prefix. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
