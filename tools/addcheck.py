"""addcheck.py ID technique note  -- register a check in tools/checks.json and rewrite MANIFEST.json"""
import json, pathlib, subprocess, sys
R = pathlib.Path(__file__).resolve().parent
f = R / "checks.json"
d = json.loads(f.read_text())
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
f.write_text(json.dumps(dict(sorted(d.items())), indent=1) + "\n")
subprocess.run([sys.executable, R / "mkprops.py"], check=True)
subprocess.run([sys.executable, R / "mkmanifest.py"], check=True)
