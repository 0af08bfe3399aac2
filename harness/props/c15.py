import random
import gen_diff as g

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 MaxIndent = %d
 Bodies = {%s}
 Emit = %s
INVARIANTS Complete Placed NoChange Rebuild Emitted
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 15)
    gens = ck.model_check("MCDiff", CFG % (3, 1, '"a", "b"', "TRUE"), "GEN", "MCDiff pairs of 3 lines, indents 0..1")
    ck.model_check("MCDiff", CFG % (3, 2, '"a", "b"' if ck.thorough else '"a"', "FALSE"), None, "MCDiff indents 0..2")
    if ck.thorough:
        ck.model_check("MCDiff", CFG % (4, 1, '"a", "b"', "FALSE"), None, "MCDiff pairs of 4 lines")
    cases = []
    for a, b in (gens if ck.thorough else r.sample(gens, min(1500, len(gens)))):
        cases.append({"kind": "hdiff", "a": a or ["a"], "b": b, "via": ["list", "list"], "syn": "ios"})
    for _ in range(ck.scale(2500, 25000)):
        a, b = g.pair(r)
        cases.append({"kind": "hdiff", "a": a, "b": b, "via": [r.choice(["list", "list", "tuple", "parse", "file"]) for _ in "ab"], "syn": r.choice(["ios", "ios", "nxos"])})
    ck.record(cases)
    ck.judge("CheckDiff", cases)
    return ck.finish()
