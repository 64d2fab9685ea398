"""Validate planted changes in scratch copies: seedtest.py [ID...]  (development tool; no check uses it).

For each: patch applies, demo passes before and fails after, stable tests pass with the patch, and which of the
quick checks report it (GLASS_REPO points the checks at the scratch copy; /verif is copied too)."""
import concurrent.futures, json, os, pathlib, shutil, subprocess, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
W = pathlib.Path("/tmp/seedwork")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=1800):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(sid, tests=True, checks=True):
    d = ROOT / "seeded" / sid
    meta = json.load(open(d / "meta.json"))
    w = W / sid
    shutil.rmtree(w, ignore_errors=True)
    w.mkdir(parents=True)
    repo = w / "repo"
    subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
    env = {"PYTHONPATH": str(repo), "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
    dd = w / "demo"
    shutil.copytree(d, dd)
    res = {"id": sid, "property": meta["property"]}
    rc, out = sh(f"bash {dd}/demo.sh", repo, env, 300)
    res["demo_clean"] = rc
    if rc:
        res["out"] = out[-600:]
    rc, out = sh(f"git apply {d}/patch.diff", repo)
    if rc:
        return res | {"apply": out}
    rc, out = sh(f"bash {dd}/demo.sh", repo, env, 300)
    res["demo_patched"] = rc
    res["demo_out"] = out[-200:]
    if tests:
        t = pathlib.Path("/opt/vp/test.sh").read_text().replace("/repo", str(repo))
        (w / "test.sh").write_text(t.replace("export HOME=/root", f"export PYTHONPATH={repo} HOME=/root"))
        rc, out = sh(f"bash {w}/test.sh {w}/t.json", repo)
        got = json.load(open(w / "t.json"))
        res["tests_broken"] = sorted(STABLE - set(got["passed"]))
    if checks:
        v = w / "verif"
        shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        rc, out = sh(f"./run.sh {meta['property']} quick", v, {"GLASS_REPO": str(repo), "VERIF_SEED": "1", "PYTHONPATH": str(repo)}, 900)
        res["check"] = rc
        res["check_out"] = out[-400:]
    shutil.rmtree(w, ignore_errors=True)
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    tests = "--notests" not in args
    ids = [a for a in args if not a.startswith("--")] or sorted(p.name for p in (ROOT / "seeded").iterdir())
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for r in ex.map(lambda s: one(s, tests), ids):
            ok = not r["demo_clean"] and r.get("demo_patched") and not r.get("tests_broken")
            print(("VALID  " if ok else "INVALID"), "CAUGHT" if r.get("check") == 1 else f"MISSED({r.get('check')})", json.dumps(r), flush=True)
