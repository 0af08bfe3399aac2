#!/usr/bin/env python3
"""Development aid: small mechanical changes of the code, to look for blind spots of the checks.
mutants.py gen OUT.json N SEED [FILE-REGEX]   sample N mutants and keep those that pass the stable tests
mutants.py run IN.json OUT.json               run the checks of the file's properties (code side only) against each"""
import ast, concurrent.futures as cf, json, os, pathlib, random, re, shutil, subprocess, sys, tempfile, threading
V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
PROPS = {"models_cisco.py": "C23 C24 C25 C30 C17", "models_asa.py": "C26 C31 C17", "models_nxos.py": "C28 C30 C17", "models_iosxr.py": "C28 C17", "models_junos.py": "C17",
         "ccp_util.py": "C18 C19 C20 C21 C22 C26 C25 C23 C24 C04", "ccp_abc.py": "C09 C10 C03 C06 C07 C11 C12 C13 C14 C15 C17 C23 C28 C01 C02",
         "ciscoconfparse.py": "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C26 C27 C29 C03", "protocol_values.py": "C26 C31"}


def mutants(src):
    t = ast.parse(src)
    L = src.split("\n")
    out = []
    def put(n, new, why):
        if n.lineno == n.end_lineno:
            out.append((n.lineno, n.col_offset, n.end_col_offset, new, why))
    seg = lambda n: ast.get_source_segment(src, n)
    def skip(n):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert, ast.JoinedStr)):
            return True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return True
        if isinstance(n, ast.Call) and "logger" in (seg(n.func) or ""):
            return True
        if isinstance(n, ast.FunctionDef) and (n.name in ("__repr__", "__str__") or any("deprecat" in (seg(d) or "") for d in n.decorator_list)):
            return True
        if isinstance(n, ast.If) and "debug" in (seg(n.test) or ""):
            return True
        return False
    OPS = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    def walk(n):
        if skip(n):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "%s %s %s" % (seg(n.left), OPS[type(n.ops[0])], seg(n.comparators[0])), "compare")
        if isinstance(n, ast.BoolOp):
            put(n, (" and " if isinstance(n.op, ast.Or) else " or ").join(seg(v) for v in n.values), "boolop")
            if n.lineno == n.end_lineno:
                for v in n.values:
                    put(n, "(%s)" % (" and " if isinstance(n.op, ast.And) else " or ").join(seg(x) for x in n.values if x is not v), "drop-operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % seg(n.operand), "drop-not")
        if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub):
            put(n, "%s %s %s" % (seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", seg(n.right)), "plusminus")
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not ...:
            if isinstance(n.value, bool):
                put(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "int")
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.lineno == n.end_lineno:
            s = seg(n)
            for a, b in ((r"\s+", r"\s"), (r"\d+", r"\d"), (r"\S+", r"\S"), ("^", ""), ("$", ""), (r"\s*", ""), ("+?", "?"), (".+", "."), ("*", "+"), ("+", "*")):
                k = s.find(a) if s else -1
                if k > 0 and "\\" in s:
                    put(n, s[:k] + b + s[k + len(a):], "regex %s -> %s" % (a, b))
            if s and len(n.value) > 1 and "\\" not in s and not isinstance(n.value, bytes):
                put(n, s[:2] + s[3:] if s[1] != s[0] else s, "string")
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n, ast.While):
            put(n.test, "True", "if-true"); put(n.test, "False", "if-false")
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, "break" if isinstance(n, ast.Continue) else "continue", "loop")
        if isinstance(n, ast.Return) and n.value is not None and n.lineno == n.end_lineno and not isinstance(n.value, ast.Constant):
            put(n, "return None", "return-none")
        if isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop-statement")
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(t)
    res = []
    for ln, a, b, new, why in out:
        l = L[ln - 1].encode()
        m = l[:a] + new.encode() + l[b:]
        if m != l:
            res.append({"line": ln, "old": l.decode(), "new": m.decode(), "why": why})
    return res


def call(repo, extra):
    import glob
    env = {**os.environ, "PYTHONPATH": str(repo), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "HOME": "/root"}
    opt = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "-rfE", "--tb=no", "-W", "ignore"]
    for cwd, more in ((repo / "tests", sorted("./" + os.path.basename(f) for f in glob.glob(str(repo / "tests" / "test_*py")))), (repo, ["--doctest-modules", "--ignore=ciscoconfparse/models_all.py", "ciscoconfparse"])):
        yield subprocess.run(opt + extra + more, cwd=cwd, env=env, capture_output=True, text=True, timeout=200)


def failing(repo):
    """the tests that fail without any change"""
    return sorted({"--deselect=" + re.sub(r" - .*", "", l.split(" ", 1)[1]).replace("tests/", "") if k == 0 else "--deselect=" + re.sub(r" - .*", "", l.split(" ", 1)[1])
                   for k, r in enumerate(call(repo, [])) for l in r.stdout.splitlines() if re.match("(FAILED|ERROR) ", l)})


def tests(repo, bad):
    try:
        return all(r.returncode == 0 for r in call(repo, ["-x"] + bad))
    except subprocess.TimeoutExpired:
        return False


def gen(out, n, seed, pat=""):
    base = pathlib.Path(os.environ.get("VERIF_DEV_REPO", "/repo"))
    pool = []
    for f in PROPS:
        if re.search(pat, f):
            src = (base / "ciscoconfparse" / f).read_text()
            pool += [dict(m, file=f) for m in mutants(src)]
    random.Random(int(seed)).shuffle(pool)
    pool = pool[:int(n)]
    root = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
    free, lock, kept = [], threading.Lock(), []
    for i in range(7):
        subprocess.run(["git", "clone", "-q", str(base), str(root / str(i))], check=True)
        free.append(root / str(i))
    bad = failing(free[0])
    print(len(bad), bad[:2], tests(free[0], bad), flush=True)
    def one(m):
        with lock:
            r = free.pop()
        p = r / "ciscoconfparse" / m["file"]
        s = p.read_text()
        try:
            L = s.split("\n")
            assert L[m["line"] - 1] == m["old"]
            L[m["line"] - 1] = m["new"]
            p.write_text("\n".join(L))
            try:
                compile("\n".join(L), m["file"], "exec")
            except SyntaxError:
                return
            if tests(r, bad):
                kept.append(m)
                pathlib.Path(out).write_text(json.dumps(kept, indent=0))
        finally:
            p.write_text(s)
            subprocess.run(["git", "-C", str(r), "clean", "-fdq"])
            with lock:
                free.append(r)
    try:
        with cf.ThreadPoolExecutor(7) as ex:
            list(ex.map(one, pool))
    finally:
        shutil.rmtree(root)
    print(len(pool), "mutants,", len(kept), "survive the tests")


ONE = r'''
import sys, importlib, json, os, hashlib, pickle, pathlib
sys.path.insert(0, %r)
import core
core.NPROC = 2
C = pathlib.Path("/tmp/mut/cache"); C.mkdir(exist_ok=True, parents=True)
real = core.Check.model_check
def mc(self, *a, **k):
    f = C / hashlib.sha1(repr((self.prop, a, sorted(k.items()))).encode()).hexdigest()
    if f.exists():
        return pickle.load(open(f, "rb"))
    v = real(self, *a, **k)
    t = f.with_suffix(".%%d" %% os.getpid()); pickle.dump(v, open(t, "wb")); t.rename(f)
    return v
core.Check.model_check = mc
core.Check.finish = lambda self, *a, **k: None
for p in sys.argv[1:]:
    ck = core.Check(p, "quick", 1)
    try:
        importlib.import_module("props." + p.lower()).run(ck)
        v = [x[0] for x in ck.violations]
    except BaseException as e:
        v = ["MACHINERY " + repr(e)[:200]]
    print("RES", json.dumps([p, sorted(set(v))[:4]]), flush=True)
    if v:
        break
'''


def covering(cov, f, old, line):
    """the properties whose checks execute the statement; None: not inside a function"""
    src = (pathlib.Path(cov) / "src/ciscoconfparse" / f).read_text()
    L = src.split("\n")
    near = [i for i in range(len(L)) if L[i] == old and abs(i + 1 - line) < 60]
    if not near:
        return None
    at = min(near, key=lambda i: abs(i + 1 - line)) + 1
    best = None
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef):
            for s in ast.walk(n):
                if isinstance(s, ast.stmt) and s is not n:
                    end = s.end_lineno if not hasattr(s, "body") else max(s.lineno, s.body[0].lineno - 1)
                    if s.lineno <= at <= end and (best is None or end - s.lineno < best[1] - best[0]):
                        best = (s.lineno, end)
    if best is None:
        return None
    out = []
    for g in sorted((pathlib.Path(cov) / "out").iterdir()):
        if any("%s:%d" % (f, k) in COV.setdefault(g.name, {l.strip().split("/")[-1] for l in g.open()}) for k in range(best[0], best[1] + 1)):
            out.append(g.name)
    return out


COV = {}


def run(inp, out):
    cov = os.environ.get("MUT_COV")      # a directory with src/ and out/Cxx (executed lines)
    base = os.environ.get("VERIF_DEV_REPO", "/repo")
    ms = json.load(open(inp))
    done = json.load(open(out)) if os.path.exists(out) else []
    seen = {(m["file"], m["line"], m["new"]) for m in done}
    lock = threading.Lock()
    def one(m):
        if (m["file"], m["line"], m["new"]) in seen:
            return
        d = pathlib.Path(tempfile.mkdtemp(prefix="mutrun-"))
        try:
            subprocess.run(["git", "clone", "-q", base, str(d / "repo")], check=True)
            p = d / "repo" / "ciscoconfparse" / m["file"]
            L = p.read_text().split("\n")
            near = [i for i in range(len(L)) if L[i] == m["old"] and abs(i + 1 - m["line"]) < 60]
            if not near:
                return
            L[min(near, key=lambda i: abs(i + 1 - m["line"]))] = m["new"]
            p.write_text("\n".join(L))
            props = PROPS[m["file"]].split()
            c = covering(cov, m["file"], m["old"], m["line"]) if cov else None
            if c is not None:
                props = sorted(c, key=lambda x: (x not in props, props.index(x) if x in props else 0))[:8]
            try:
                r = subprocess.run(["python3", "-c", ONE % str(V / "harness")] + props, capture_output=True, text=True, timeout=1500, env={**os.environ, "VERIF_DEV_REPO": str(d / "repo")})
                res = [json.loads(l[4:]) for l in r.stdout.splitlines() if l.startswith("RES")]
            except subprocess.TimeoutExpired:
                res = [["timeout", ["timeout"]]]
            with lock:
                done.append(dict(m, props=props, res=[x for x in res if x[1]], n=len(res)))
                pathlib.Path(out).write_text(json.dumps(done, indent=0))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "4"))) as ex:
        list(ex.map(one, ms))
    print(len(done), "run,", sum(not m["res"] for m in done), "not caught")


if __name__ == "__main__":
    {"gen": gen, "run": run}[sys.argv[1]](*sys.argv[2:])
