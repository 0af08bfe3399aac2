import json, random
import edits, gen, queries

READ = ["get", "slice", "slice", "slice", "copy", "add", "radd", "mul", "iter", "reversed", "len", "with_comments", "no_comments", "count", "in", "index", "tops"]
WRITE = ["pop", "pop", "remove", "del", "delslice", "delslice", "set", "move", "append", "extend", "iadd", "insert", "insert", "reverse", "sort", "sort", "clear", "imul"]

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 Bodies = {%s}
 MaxOps = %d
 Emit = %s
INVARIANTS ReadsLeave RefusalLeaves CutLaw BackLaw PartLaw StepLaw SortLaw GoneLaw ParseLaw Emitted
"""


def op(m, r=None, **k):
    q = {"m": m, "i": 0, "j": 0, "lo": 0, "hi": 999, "a": {"h": False, "v": 0}, "b": {"h": False, "v": 0}, "s": 1, "ts": [], "text": "n", "key": "num", "rev": False, "mod": False, "other": False}
    q.update(k)
    return q


def at(r, n):
    return r.randint(-n - 1, n) if r.random() < .85 else r.choice([-100, 100, 0, -1])


def rnd(r, n, o):
    m = r.choice(READ if r.random() < .5 else WRITE)
    q = op(m, i=at(r, n), j=at(r, n), mod=r.random() < .5, other=r.random() < .5, key=r.choice(["num", "len"]), rev=r.random() < .4)
    for e in "ab":
        if r.random() < .7:
            q[e] = {"h": True, "v": at(r, n)}
    q["s"] = r.choice([1, 1, 1, 1, 2, 3, -1, -2])
    if m in ("mul", "imul"):
        q["i"] = r.choice([0, 1, 1, 2, 2, 3] if m == "mul" else [1, 2, 2, 0])
    if m in ("with_comments", "no_comments"):
        q["i"] = r.choice([0, 0, 1, 2, 3, n, 100])
    if m == "index" and r.random() < .4:
        q["lo"], q["hi"] = r.randint(0, n + 1), r.randint(0, n + 1)
    if m in ("add", "radd", "set", "append", "extend", "iadd"):
        word = lambda: edits.BAD.sub("foo", edits.text(r, o, .03))
        q["ts"] = [word() for _ in range(1 if m == "set" else r.choice([0, 1, 1, 2, 3]))]
        if m == "set":
            q["other"] = False
        if not all(t.strip() for t in q["ts"]):
            q["other"] = False
    if m == "insert":
        q["text"] = edits.text(r, o, .03)
    return q


def history(r):
    lines, kw, o = queries.config(r)
    if kw["syntax"] == "junos":
        kw["syntax"] = o["syn"] = "ios"
    lines = [edits.BAD.sub("foo", l) for l in lines]
    ops, n = [], len(lines)
    for _ in range(r.randint(1, 7)):
        q = rnd(r, n, o)
        if q["m"] == "clear" and r.random() < .7:
            continue
        ops.append(q)
        if r.random() < .3:
            ops.append(op("commit"))
            if r.random() < .4:
                ops.append(op("tops"))
    return gen.tree_case(r, lines, kw, o, kind="list", ops=ops + [op("commit")])


def small():
    v = lambda x: {"h": True, "v": x}
    return [op("get", i=1), op("get", i=-3), op("slice", a=v(1)), op("slice", s=-1), op("slice", a=v(-2), b=v(5), s=2), op("copy"), op("add", ts=["n"]), op("radd", ts=["n", " m"]), op("mul", i=2),
            op("no_comments", i=1), op("index", i=1, lo=1), op("count", i=0), op("tops"),
            op("pop", i=-1), op("pop", i=1), op("remove", i=-1), op("del", i=0), op("del", i=2), op("delslice", a=v(1)), op("set", i=1, ts=[" n"]), op("move", i=0, j=-1), op("append", ts=[" n"]),
            op("extend", ts=["n", " m"], other=True), op("insert", i=1, text=" n"), op("insert", i=-1, text="n"), op("reverse"), op("sort", key="len"), op("sort", rev=True), op("clear"), op("imul", i=2), op("commit")]


def run(ck):
    r = random.Random(ck.seed * 7919 + 35)
    ops = small()
    gens = ck.model_check("MCList", CFG % (3, '"a", " b", "!"', ck.scale(2, 3), "TRUE" if not ck.thorough else "FALSE"), "GEN", "MCList 3 lines", files={"ops.json": json.dumps(ops)})
    if ck.thorough:
        gens = ck.model_check("MCList", CFG % (3, '"a", " b", "!", "  b"', 2, "TRUE"), "GEN", "MCList 3 lines, 2 ops", files={"ops.json": json.dumps(ops)})
    kw, o = gen.opts(r, syn="ios", ign=True, fac=False, cd="!")
    cases = [gen.tree_case(r, g["lines"], kw, o, kind="list", ops=[ops[k - 1] for k in g["hist"]] + [op("commit")]) for g in (gens if ck.thorough else r.sample(gens, min(len(gens), 4000)))]
    cases += [history(r) for _ in range(ck.scale(3000, 12000))]
    ck.record(cases)
    ck.judge("CheckList", cases)
    return ck.finish(["new lines are put into the list as line objects or, for insert(), as text"])
