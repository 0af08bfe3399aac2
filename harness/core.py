"""Machinery shared by all checks: run the implementation, run TLC, report."""
import hashlib, json, os, pathlib, random, re, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = os.environ.get("VERIF_DEV_REPO") or "/repo"   # the override serves tools/catch.py only
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def attach(case, ob):
    """put an observation into its case, where the Check modules expect it"""
    if case["kind"] == "query":
        case["n"] = ob.get("n", -1)
        case["after"] = ob.get("after", [])
        for q, o in zip(case["queries"], ob.get("obs") or [None] * len(case["queries"])):
            q["obs"] = o
    else:
        case["obs"] = ob
    return case


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        self.states = self.transitions = self.traces = 0
        self.violations = []          # (clause, exp, obs, case)
        self.samples = []
        self.notes = {}
        self.exhaustive = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- implementation
    def observe(self, cases, timeout=600):
        """Run every case on the real code; returns the observations, in order."""
        d = pathlib.Path(tempfile.mkdtemp(prefix="obs-", dir=self.work))
        (d / "in.json").write_text(json.dumps(cases))
        env = {"PATH": os.environ.get("PATH", ""), "HOME": str(d), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
               "PYTHONPATH": f"{REPO}:{VERIF}/harness", "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONHASHSEED": str(self.seed % 1000), "VERIF_SCRATCH": str(d)}
        r = subprocess.run([PY, "-W", "ignore", str(VERIF / "harness" / "drive.py"), str(d / "in.json"), str(d / "out.json")],
                           cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        if r.returncode != 0 or not (d / "out.json").exists():
            raise MachineryError("driver failed: " + r.stderr.decode(errors="replace")[-2000:])
        out = json.loads((d / "out.json").read_text())
        shutil.rmtree(d, ignore_errors=True)
        return out

    def record(self, cases):
        """observe and attach"""
        for c, ob in zip(cases, self.observe(cases)):
            attach(c, ob)
        return cases

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=None, workers=NPROC, timeout=None, extra=()):
        timeout = timeout or (3400 if self.thorough else 850)
        d = pathlib.Path(tempfile.mkdtemp(prefix="tlc-", dir=self.work))
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, d)
        (d / f"{module}.cfg").write_text(cfg)
        for n, content in (files or {}).items():
            (d / n).write_text(content)
        cmd = ["java", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}", "-Xss64m", "-Xmx10g", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-deadlock", "-metadir", str(d / "meta"), "-config", f"{module}.cfg", *extra, f"{module}.tla"]
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = r.stdout.decode(errors="replace")
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if r.returncode != 0 or not m:
            lines = [l for l in out.splitlines() if not re.match(r"^(Parsing|Semantic|Linting)|^\"", l)]
            raise MachineryError(f"TLC failed on {module} (rc {r.returncode}):\n" + "\n".join(lines)[-4000:])
        if os.environ.get("VERIF_DEBUG"):
            print(f"  [{time.time() - self.t0:.1f}s] {module}: {m.group(2)} states", file=sys.stderr)
        self.states += int(m.group(2))
        self.transitions += int(m.group(1))
        return out, int(m.group(2))

    @staticmethod
    def printed(out, tag):
        """Values printed as PrintT(tag \\o ToJson(..))."""
        res = []
        for line in out.splitlines():
            if line.startswith('"' + tag + " "):
                try:
                    res.append(json.loads(json.loads(line)[len(tag) + 1:]))
                except ValueError as e:
                    raise MachineryError(f"cannot read TLC output line {line[:200]}: {e}")
        return res

    def model_check(self, module, cfg, tag=None, name=None, files=None):
        """Exhaustively check an MC module (invariants live in the cfg). Returns emitted values."""
        out, n = self.tlc(module, cfg, files)
        self.exhaustive.append(f"{name or module}: {n} states")
        if not tag:
            return []
        # TLC's workers print in any order: make what is generated a function of the seed
        got = sorted(self.printed(out, tag), key=lambda v: json.dumps(v, sort_keys=True))
        random.Random(self.seed).shuffle(got)
        return got

    def judge(self, module, cases, label=None, count=True, cfg="INIT Init\nNEXT Next\n"):
        """Let TLC decide the recorded cases; each is a record with its observations inside."""
        if not cases:
            return []
        out, _ = self.tlc(module, cfg, {"cases.json": json.dumps(cases)})
        bad = self.printed(out, "BAD")
        if count:
            self.traces += len(cases)
        for b in bad:
            self.violations.append((b["clause"], b["exp"], b["obs"], b["step"], module, cases[b["case"] - 1]))
        if len(self.samples) < 6:
            self.samples.append({"module": module, "case": cases[len(cases) // 3]})
        self.notes[label or module] = self.notes.get(label or module, 0) + len(cases)
        return bad

    # ---------------------------------------------------------------- reporting
    def finish(self, assumptions=()):
        known = load_known(self.prop)
        seen_known, fresh = {}, []
        for v in self.violations:
            key = v[5].get("key") if isinstance(v[5], dict) else None
            if key in known:
                seen_known.setdefault(key, v)
            else:
                fresh.append(v)
        for key, what in known.items():
            if key in seen_known:
                print(f"KNOWN-FINDING: property={self.prop} {what}")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": shrink_samples(self.samples),
                         "judged_per_module": self.notes, "exhaustive_models": self.exhaustive},
            "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        shutil.rmtree(self.work, ignore_errors=True)
        if fresh:
            fresh.sort(key=lambda v: len(json.dumps(v[5])))
            clauses = {}
            for v in fresh:
                clauses.setdefault(v[0], []).append(v)
            rd = VERIF / "replays"
            rd.mkdir(exist_ok=True)
            v = fresh[0]
            blob = json.dumps({"property": self.prop, "module": v[4], "clause": v[0], "expected": v[1], "observed": v[2],
                               "step": v[3], "case": v[5]}, indent=1)
            path = rd / f"{self.prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json"
            path.write_text(blob + "\n")
            for cl, vs in sorted(clauses.items()):
                w = vs[0]
                print(f"  clause {cl}: {len(vs)} case(s); expected {w[1][:300]} observed {w[2][:300]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.traces} wall={ev['wall_s']}s")
        return 0


def shrink_samples(samples):
    out = []
    for s in samples:
        t = json.dumps(s)
        out.append(s if len(t) < 6000 else {"module": s["module"], "case_json_prefix": t[:3000]})
    return out


def load_known(prop):
    known = {}
    p = VERIF / "known-findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known
