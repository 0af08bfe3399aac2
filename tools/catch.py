#!/usr/bin/env python3
"""catch.py [ID...] [--prop Cxx]: run the quick check of each planted bug's property against a copy with the bug."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time
V = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]
prop = args.pop(args.index("--prop") + 1) if "--prop" in args else None
ids = [a for a in args if a != "--prop"] or sorted(p.name for p in (V / "seeded").iterdir())
for i in ids:
    d = pathlib.Path(tempfile.mkdtemp(prefix="catch-"))
    try:
        subprocess.run(["git", "clone", "-q", "/repo", str(d / "repo")], check=True)
        a = subprocess.run(["git", "apply", str(V / "seeded" / i / "patch.diff")], cwd=d / "repo")
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY")
            continue
        shutil.copytree(V, d / "verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
        p = prop or json.load(open(V / "seeded" / i / "meta.json"))["property"]
        t = time.time()
        r = subprocess.run(["python3", "run.py", p], cwd=d / "verif", capture_output=True, text=True, env={**os.environ, "VERIF_DEV_REPO": str(d / "repo"), "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
        res = json.load(open("/verif/tools/caught.json")) if os.path.exists("/verif/tools/caught.json") else {}
        res.setdefault(i, {})[p] = {0: "missed", 1: "caught"}.get(r.returncode, "error")
        json.dump(res, open("/verif/tools/caught.json", "w"), indent=0, sort_keys=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  clause")]
        print(i, p, {0: "MISSED", 1: "caught", 2: "MACHINERY"}.get(r.returncode, r.returncode), f"{time.time()-t:.0f}s", lines[0][:150] if lines else r.stdout[-300:] if r.returncode == 2 else "", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
