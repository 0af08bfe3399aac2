#!/usr/bin/env python3
"""plant.py FILE...: each FILE defines BUGS = [dict(id, prop, needs, what, edits=[(file, old, new)], demo)].
Builds seeded/<id>/ after confirming: applies, compiles, stable tests pass, demo 0 without / nonzero with."""
import concurrent.futures as cf, json, pathlib, re, runpy, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
DEMO = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py" 2>/dev/null\n'
HEAD = 'from ciscoconfparse import *\nfrom ciscoconfparse.ciscoconfparse import *\nfrom ciscoconfparse.ccp_util import *\nfrom loguru import logger\nlogger.remove()\n'


def plant(b):
    d = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        r = d / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(r)], check=True)
        out = V / "seeded" / b["id"]
        tmp = d / "seed"
        tmp.mkdir()
        (tmp / "demo.sh").write_text(DEMO)
        (tmp / "demo.py").write_text(HEAD + b["demo"].strip() + "\n")
        demo = lambda: subprocess.run(["bash", str(tmp / "demo.sh")], cwd=r, timeout=300).returncode
        if demo() != 0:
            return b["id"], "demo fails on the clean tree"
        for f, old, new in b["edits"]:
            p = r / "ciscoconfparse" / f
            s = p.read_text()
            if s.count(old) != 1:
                return b["id"], f"{f}: {s.count(old)} occurrences of {old!r}"
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        mine = [int(x.split(")")[0].split()[-1]) for x in subprocess.run(["git", "blame", "HEAD", "-s", "--root", "-n", f], cwd=r / "ciscoconfparse", capture_output=True, text=True).stdout.splitlines() if not x.lstrip("^").startswith("271dbcd")]
        for m in re.finditer(r"^@@ -(\d+),?(\d*) .*\n((?:[ +-].*\n?)*)", subprocess.run(["git", "diff", "-U0"], cwd=r, capture_output=True, text=True).stdout, re.M):
            hit = set(range(int(m[1]), int(m[1]) + int(m[2] or 1))) & set(mine) if m[2] != "0" else None
            if hit:
                return b["id"], f"touches lines added by fixes: {sorted(hit)}"
        if demo() == 0:
            return b["id"], "demo passes with the change"
        t = pathlib.Path("/opt/vp/test.sh").read_text().replace("/repo", str(r))
        (d / "test.sh").write_text(t)
        subprocess.run(["bash", str(d / "test.sh"), str(d / "o.json")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        base = json.load(open("/opt/vp/BASELINE.json"))
        miss = sorted(set(base["stable"]) - set(json.load(open(d / "o.json"))["passed"]))
        if miss:
            return b["id"], f"breaks {len(miss)} tests: {miss[:3]}"
        shutil.rmtree(out, ignore_errors=True)
        out.mkdir(parents=True)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(tmp / f, out / f)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, indent=1) + "\n")
        return b["id"], "planted"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = [b for f in sys.argv[1:] for b in runpy.run_path(f)["BUGS"]]
    with cf.ThreadPoolExecutor(6) as ex:
        for i, res in ex.map(plant, bugs):
            print(i, res)
