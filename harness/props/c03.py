import random
import gen

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 MaxIndent = %d
 Bodies = {%s}
 Ign = %s
 Emit = %s
INVARIANTS Laws Contiguous Idempotent Emitted
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 3)
    gens = ck.model_check("MCTree", CFG % (4, 2, '"a", "!", "a {", "}"', "FALSE", "TRUE"), "GEN", "MCTree 4 lines, indents 0..2, plain/comment/brace lines")
    ck.model_check("MCTree", CFG % (ck.scale(5, 7), 3, '"a"', "FALSE", "FALSE"), None, "MCTree plain lines")
    if ck.thorough:
        ck.model_check("MCTree", CFG % (5, 3, '"a", "!", "a {", "}"', "FALSE", "FALSE"), None, "MCTree 5 lines")
    cases = []
    pick = gens if ck.thorough else r.sample(gens, 2500)
    for lines in pick:
        kw, o = gen.opts(r, ign=False, fac=False, cd="!", syn="ios")
        cases.append(gen.tree_case(r, lines, kw, o, kind="rel", word="a"))
    for k in range(ck.scale(1500, 20000)):
        kw, o = gen.opts(r)
        lines = gen.indented(r, r.choice([2, 4, 8, 12, 20, 30]), kw["comment"], comments=r.choice([0, .1, .3]), meta=r.choice([.02, .3]),
                             maxind=r.choice([2, 4, 8]))
        if r.random() < .4:     # lines whose number and text run together
            lines += ["%d foo" % r.randint(1, 30) for _ in range(r.randint(1, 4))] + [" foo"] * r.randint(0, 2)
        cases.append(gen.tree_case(r, lines, kw, o, kind="rel", word=r.choice(["a", "foo", "ip", "10", "no"])))
    ck.record(cases)
    ck.judge("CheckRel", cases)
    return ck.finish()
