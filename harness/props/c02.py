import itertools, random
import gen

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 Indents = {%s}
 Kinds = {"cfg", "com", "blank"}
 Ign = %s
 Emit = %s
INVARIANTS Agrees CacheSound ParentsSane Emitted
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 2)
    # 1. the incremental parser is the declarative hierarchy, exhaustively at small scope;
    #    every enumerated shape is replayed on the real parser
    n = ck.scale(4, 5)
    shapes = [(False, s) for s in ck.model_check("MCParse", CFG % (n, "0, 1, 2, 3", "FALSE", "TRUE"), "GEN", f"MCParse lines={n} indents=0..3")]
    shapes += [(True, s) for s in ck.model_check("MCParse", CFG % (4, "0, 1, 2", "TRUE", "TRUE"), "GEN", "MCParse 4 lines, blank ones dropped")]
    deep = ck.scale(5, 6)
    for ign in ("FALSE", "TRUE"):
        ck.model_check("MCParse", CFG % (deep, "0, 1, 2, 3", ign, "FALSE"), None, f"MCParse lines={deep} indents=0..3 ign={ign}")
    cases = []
    for ign, (ind, kinds, par) in shapes:
        lines = [" " * i + ("!c%d" % k if kd == "com" else " " * r.randint(1, 5) if kd == "blank" and ign else "" if kd == "blank" else "l%d" % k) for k, (i, kd) in enumerate(zip(ind, kinds))]
        if ign:
            kept = [k for k, kd in enumerate(kinds) if kd != "blank"]
            par = [kept.index(par[k]) for k in kept]
        kw, o = gen.opts(r, ign=ign, fac=False, cd="!", syn=r.choice(gen.SYN))
        cases.append(gen.tree_case(r, lines, kw, o, predicted=par))
    ck.record(cases)
    # the prediction printed by TLC must be the observed parents (spec -> implementation)
    for c in cases:
        got = c["obs"].get("par") if isinstance(c["obs"], dict) else None
        if got != c["predicted"]:
            ck.violations.append(("generated-behaviour-parents", str(c["predicted"]), str(c["obs"])[:400], 1, "CheckTree", c))
    ck.traces += len(cases)
    ck.notes["generated shapes replayed"] = len(cases)
    # 2. random larger configurations, judged by the specification
    rnd = []
    for k in range(ck.scale(3000, 40000)):
        kw, o = gen.opts(r)
        lines = gen.indented(r, r.choice([3, 5, 8, 12, 20, 35]), kw["comment"], comments=r.choice([0, .1, .3]),
                             blanks=r.choice([0, .05, .2]), meta=r.choice([.02, .3]), maxind=r.choice([2, 4, 8]))
        rnd.append(gen.tree_case(r, lines, kw, o))
    ck.record(rnd)
    ck.judge("CheckTree", rnd)
    return ck.finish()
