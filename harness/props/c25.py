import random
import gen, gen_attr as g

CFG = """SPECIFICATION Spec
CONSTANTS Six = %s MaxOpts = %d
INVARIANTS RoundTrip Emitted
PROPERTIES OneField
"""


def replay(ck, gens, what, syn):
    """every line TLC built, read by the code (spec -> implementation)"""
    cases = [{"kind": "lines", "what": what, "syn": syn, "lines": [x[0] for x in part], "want": [x[1] for x in part]} for part in [gens[i:i + 80] for i in range(0, len(gens), 80)]]
    ck.record(cases)
    for c in cases:
        for l, w, o in zip(c["lines"], c["want"], c["obs"] if isinstance(c["obs"], list) else [{}] * len(c["lines"])):
            for n, v in w:
                got = o.get(n, o.get("exc", "not observed"))
                if got != v or type(got) != type(v):
                    ck.violations.append(("generated-behaviour-" + n, str(v), str(got) + " for " + l, 1, "CheckAttr", {**c, "lines": [l], "want": [w], "obs": [o]}))
    ck.traces += len(cases)
    ck.notes["single lines replayed"] = ck.notes.get("single lines replayed", 0) + len(gens)


def run(ck):
    r = random.Random(ck.seed * 7919 + 25)
    for six in ("FALSE", "TRUE"):
        gens = ck.model_check("MCRoute", CFG % (six, 3 if ck.thorough else 2), "GEN", "MCRoute ipv%s" % (6 if six == "TRUE" else 4))
        replay(ck, [tuple(x) for x in gens], "ios-route", "ios")
    cases = []
    for _ in range(ck.scale(3000, 30000)):
        kw, o = gen.opts(r, syn="ios", fac=True, cd="!")
        cases.append(gen.edited(r, {"kind": "attr", "what": "ios-route", "via": "list", "content": "", "lines": g.routes(r), "kw": kw, "opts": o, "nets": []}))
    ck.record(cases)
    ck.judge("CheckAttr", cases)
    return ck.finish()
