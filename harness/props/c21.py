import itertools, random
import gen_intf as g

MC = """CONSTANTS MAXN = %d BASETEXT = "%s"
INIT Init
NEXT Next
INVARIANTS RoundTrip SameBase Shortest
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 21)
    for b in ("", "Eth1/2", "Serial1/0:3", "Eth1/2.3 multipoint"):
        ck.model_check("MCRanges", MC % (ck.scale(10, 12), b), name="MCRanges " + b)
    cases = [g.range_case(r) for _ in range(ck.scale(1500, 15000))]
    # every set over 0..5, as numbers and as interfaces
    for k in range(1, 7):
        for sub in itertools.combinations(range(6), k):
            cases.append({"kind": "range", "ints": True, "xr": False, "rt": "int", "text": ",".join(map(str, r.sample(sub, k))), "ops": []})
            cases.append({"kind": "range", "ints": False, "xr": sum(sub) % 3 == 0, "rt": "cls", "first": (pre := "Eth1/" if sum(sub) % 3 else "Te0/0/0/") + str(sub[0]), "vary": "port", "text": pre + ",".join(map(str, r.sample(sub, k))), "ops": []})
    for _ in range(ck.scale(400, 4000)):
        ints = r.random() < .6
        ps = g.numset_text(r, 12)
        a = ",".join(g.piece(r, *p) for p in ps)
        if r.random() < .5:
            nums = sorted({x for lo, hi in ps for x in range(lo, (lo if hi is None else hi) + 1)})
            if r.random() < .4 and len(nums) > 1:
                nums.pop(r.randrange(len(nums)))
            r.shuffle(nums)
            b = ",".join(map(str, nums))
        else:
            b = ",".join(g.piece(r, *p) for p in g.numset_text(r, 12))
        pre = "" if ints else r.choice(["Eth1/", "Gi0/1/", "Serial1/0:", "Vlan"])
        if ints and r.random() < .1:
            a = r.choice(["", a])
            b = r.choice(["", b])
        cases.append({"kind": "rangeeq", "ints": ints, "xr": pre == "Vlan" and r.random() < .5, "x": pre + a, "y": pre + b})
    ck.record(cases)
    ck.judge("CheckIntf", cases)
    return ck.finish()
