#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist: run after adding one."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOT_APPLICABLE = {}
checks, missing = [], []
for p in props:
    f = os.path.join(here, "mon", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        missing.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "not built yet")})
        continue
    values = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                values[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": values.get("TECHNIQUE", "runtime monitor over generated workloads"),
        "level": values.get("LEVEL", "exploration"),
        "level_note": values.get("NOTE", "Held on the executions driven (see evidence); trusts the reference model in mon/ and CPython."),
    })
json.dump({"version": 1, "setup_cmd": "mkdir -p evidence/replay", "checks": checks, "not_applicable": missing,
           "notes": "Each check imports nappy from /repo's working tree; nothing is built or cached. No hooks in /repo."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(missing), "not claimed")
