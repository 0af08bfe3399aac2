import random
import gen_intf as g

MC = """CONSTANTS NUMS = {%s} XR = %s
INIT Init
NEXT Next
INVARIANTS RoundTrip Total Asym Numeric
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 22)
    ck.model_check("MCIntf", MC % (ck.scale("2, 10", "0, 2, 10"), "FALSE"), name="MCIntf ios")
    ck.model_check("MCIntf", MC % ("2, 10", "TRUE"), name="MCIntf iosxr")
    cases = []
    for _ in range(ck.scale(1500, 15000)):
        xr = r.random() < .3
        cases.append({"kind": "intf", "name": g.show(r, g.comps(r, xr)), "xr": xr, "sets": g.sets(r, xr)})
    for _ in range(ck.scale(2000, 20000)):
        xr = r.random() < .3
        c = g.comps(r, xr, True)
        cases.append({"kind": "intfpair", "x": g.show(r, c), "y": g.show(r, g.variant(r, c, xr)), "xr": xr})
    for _ in range(ck.scale(400, 4000)):
        xr = r.random() < .3
        c = g.comps(r, xr, True)
        while any(not p.isdigit() for p in c["parts"]):
            c = g.comps(r, xr, True)
        c["cls"] = ""
        xs = [c]
        for _ in range(r.randint(1, 6)):
            d = g.variant(r, r.choice(xs), xr)
            if d["p"] == c["p"] and not d["cls"] and all(p.isdigit() for p in d["parts"]):
                xs.append(d)
        cases.append({"kind": "intfsort", "xs": [g.show(r, d) for d in xs], "xr": xr})
    ck.record(cases)
    ck.judge("CheckIntf", cases)
    return ck.finish()
