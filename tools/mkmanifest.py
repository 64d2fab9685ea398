"""Writes /verif/MANIFEST.json from the checks that exist (harness/cNN.py)."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
META = json.loads((R / "tools" / "checks.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (R / "harness" / f"{i.lower()}.py").exists() and i in META:
        m = META[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": m["technique"], "level": "model_checking", "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": META.get(i, {}).get("na", "check not built yet")})
(R / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "sh ./setup.sh",
    "checks": checks, "not_applicable": na,
    "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by harness/; no hooks are needed in /repo: "
             "behaviours are observed through the public API with scripted random generators, mock cosmologies and stand-ins for external data.",
}, indent=1) + "\n")
