import random
import gen_diff as g, gen_rx as x
from props.c16 import ANY, uncfg

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 MaxReqs = %d
 MaxIndent = 1
 Bodies = {%s}
 Reqs = {"a x", "b x"}
 Searches = {"x", "a"}
 Emit = %s
INVARIANTS Enforced Settled Emitted
"""


def ask(r, a):
    lp = ANY if r.random() < .1 else x.pattern(r, a, ic=True)
    up = lp if r.random() < .3 else ANY if r.random() < .4 else uncfg(r, a)
    have = [l.strip() for l in a if l.strip()]
    reqs = [r.choice(have) if have and r.random() < .6 else r.choice(["logging 1.1.1.1", "a", "interface Ethernet9", "no ip http server", "b c", "exit"]) for _ in range(r.randint(0, 4))]
    return {"lp": lp, "up": up, "reqs": [r.choice(["", "", " ", "  "]) + q + r.choice(["", "", " "]) for q in reqs]}


def run(ck):
    r = random.Random(ck.seed * 7919 + 34)
    gens = ck.model_check("MCAudit", CFG % (3, 2, '"a x", "b", "a y", "b x"' if ck.thorough else '"a x", "b", "b x"', "TRUE"), "GEN", "MCAudit 3 lines")
    lit = lambda s: {"src": s, "ic": False, "ng": 0, "alts": [[{"k": "c", "s": s}]]}
    cases = [{"kind": "excl", "a": z[0], "syn": "ios", "asks": [{"lp": lit(z[2]), "up": ANY, "reqs": z[1]}]} for z in (gens if ck.thorough else r.sample(gens, min(len(gens), 1500)))]
    for _ in range(ck.scale(2500, 25000)):
        a, _ = g.pair(r)
        if r.random() < .5:     # several lines of one kind
            w = r.choice(["logging", "ntp server", "ip name-server", " ip helper-address", " neighbor"])
            for _ in range(r.randint(1, 5)):
                a.insert(r.randint(0, len(a)), "%s 10.1.1.%d%s" % (w, r.randint(1, 5), r.choice(["", "", " vrf X"])))
        cases.append({"kind": "excl", "a": a, "syn": r.choice(["ios", "ios", "nxos", "iosxr"]), "asks": [ask(r, a) for _ in range(r.choice([1, 1, 2, 3]))]})
    ck.record(cases)
    ck.judge("CheckAudit", cases)
    return ck.finish()
