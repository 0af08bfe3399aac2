import random
import gen, gen_attr as g

CFG = """SPECIFICATION Spec
CONSTANTS Cmds = {%s} MaxLen = %d
INVARIANTS Inside%s
PROPERTIES Steps
"""
CMDS = ["1-5", "none", "all", "add 3-7", "add 4094", "remove 2,4", "except 1-4093", "remove 1-4094", "add 1,6"]


def run(ck):
    r = random.Random(ck.seed * 7919 + 24)
    deep = ck.thorough
    gens = ck.model_check("MCTrunk", CFG % (", ".join('"%s"' % c for c in CMDS), 4 if deep else 3, " Emitted"), "GEN", "MCTrunk command sequences")
    # every sequence TLC enumerated, applied by the code (spec -> implementation)
    kw, o = gen.opts(r, syn="ios", fac=True, cd="!")
    todo = [x for x in gens if single(x[0])]
    cases = [{"kind": "trunk", "seqs": [x[0] for x in part], "want": [x[1] for x in part]} for part in [todo[i:i + 60] for i in range(0, len(todo), 60)]]
    ck.record(cases)
    for c in cases:
        if c["obs"] != c["want"]:
            k = next((i for i in range(len(c["want"])) if i >= len(c["obs"]) or c["obs"][i] != c["want"][i]), 0)
            ck.violations.append(("generated-behaviour-trunk", str(c["want"][k]), str(c["obs"][k] if isinstance(c["obs"], list) else c["obs"]), 1, "CheckAttr", {**c, "seqs": [c["seqs"][k]], "want": [c["want"][k]], "obs": [c["obs"][k]] if isinstance(c["obs"], list) else c["obs"]}))
    ck.traces += len(cases)
    ck.notes["command sequences replayed"] = len(todo)
    cases = []
    for _ in range(ck.scale(2500, 25000)):
        kw, o = gen.opts(r, syn="ios", fac=True, cd="!")
        cases.append(gen.edited(r, {"kind": "attr", "what": "ios-switch", "via": "list", "content": "", "lines": g.config(r, "ios-switch"), "kw": kw, "opts": o, "nets": []}))
    ck.record(cases)
    ck.judge("CheckAttr", cases)
    return ck.finish()


def single(seq):
    """an explicit list is not followed by another one without all/none between: the library accumulates those on purpose"""
    seen = False
    for c in seq:
        if c in ("all", "none"):
            seen = False
        elif c[0].isdigit():
            if seen:
                return False
            seen = True
    return True
