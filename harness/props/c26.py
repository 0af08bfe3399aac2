import random
import gen, gen_asa as g

PORTS = """SPECIFICATION Spec
CONSTANTS Top = %d Edge = {"1","2","80","65534","65535","65536","0","443"}
INVARIANTS Law Emitted
"""
GROUPS = """SPECIFICATION Spec
CONSTANTS MaxLines = %d GNAMES = {"A", "B"%s}
INVARIANTS Emitted
PROPERTIES Grow
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 26)
    gens = ck.model_check("MCPorts", PORTS % (9 if ck.thorough else 7), "GEN", "MCPorts expressions")
    # port sets TLC enumerated, built by the code
    cases = [{"kind": "ports", "specs": [[x[0], " ".join(x[1])] for x in part], "want": [x[2] for x in part]} for part in [gens[i:i + 60] for i in range(0, len(gens), 60)]]
    ck.record(cases)
    for c in cases:
        for s, w, o in zip(c["specs"], c["want"], c["obs"] if isinstance(c["obs"], list) else [c["obs"]] * len(c["want"])):
            if o != w:
                ck.violations.append(("generated-port-set", str(w), str(o)[:200] + " for %s" % s, 1, "CheckAsa", {**c, "specs": [s], "want": [w], "obs": [o]}))
    ck.traces += len(cases)
    gens = ck.model_check("MCGroups", GROUPS % ((6, ', "C"') if ck.thorough else (5, "")), "GEN", "MCGroups definitions")
    gens = [x for x in gens if not g.cyclic(x[0])]
    if not ck.thorough:
        gens = r.sample(gens, min(len(gens), 3000))
    kw, o = gen.opts(r, syn="asa", fac=True, cd="!")
    cases = [{"kind": "asa", "via": "list", "content": "", "lines": x[0], "kw": kw, "opts": o, "want": x[1]} for x in gens]
    ck.record(cases)
    for c in cases:
        got = [[[n, ob["attrs"].get(n)] for n, _ in w] for ob, w in zip([x for x in c["obs"].get("objs", []) if "networks" in x["attrs"]], c["want"])]
        if got != c["want"]:
            ck.violations.append(("generated-groups", str(c["want"]), str(got)[:600], 1, "CheckAsa", c))
    ck.traces += len(cases)
    ck.notes["group definitions replayed"] = len(cases)
    cases = []
    while len(cases) < ck.scale(2500, 25000):
        lines = g.config(r)
        if g.cyclic(lines) or not all(gen.safe(l) for l in lines):
            continue
        kw, o = gen.opts(r, syn="asa", fac=True, cd="!")
        cases.append(gen.edited(r, {"kind": "asa", "via": "list", "content": "", "lines": lines, "kw": kw, "opts": o}))
    for _ in range(ck.scale(60, 600)):
        cases.append({"kind": "ports", "specs": [[p, g.spec(r, p)] for p in (r.choice(["tcp", "udp"]) for _ in range(20))]})
    ck.record(cases)
    ck.judge("CheckAsa", cases)
    return ck.finish()
