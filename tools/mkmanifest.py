"""Writes /verif/MANIFEST.json from the check modules (constants only, nothing is imported)."""
import ast, json, os

home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(home, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(home, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "its check is still being built"})
        continue
    c = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            try:
                v = ast.literal_eval(node.value)
            except ValueError:
                continue
            for t in node.targets:
                if isinstance(t, ast.Tuple):
                    for n, x in zip(t.elts, v):
                        c[n.id] = x
                elif isinstance(t, ast.Name):
                    c[t.id] = v
    note = "Holds on every case of the enumerated space (bounds in the evidence): " + c["RULE"] + ". Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
    checks.append({
        "property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "technique": c["TECHNIQUE"], "level": c["LEVEL"], "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: everything is observed through the public API, injected stores, a virtual clock and file-fault shim (LD_PRELOAD) and replaced threading primitives. Known and fixed findings: KNOWN_FINDINGS.txt."},
  open(os.path.join(home, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "without")
