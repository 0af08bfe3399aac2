import itertools, random
import gen_ip
from gen_ip import S

MC = """CONSTANTS BITS = %d LIMBS = %d NETBITS = 0
INIT Init
NEXT Next
INVARIANTS NetworkLaw ContainsLaw OrderLaw ArithLaw InverseLaw
"""
MCC = """CONSTANTS BITS = 3 MAXSET = %d
INIT Init
NEXT Next
INVARIANTS SameAddresses Ascending Minimal
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 20)
    for bits, limbs in ck.scale([(2, 2)], [(2, 2), (1, 4), (5, 1)]):
        ck.model_check("MCIP", MC % (bits, limbs), name="MCIP bits=%d limbs=%d" % (bits, limbs))
    ck.model_check("MCCollapse", MCC % ck.scale(4, 7), name="MCCollapse")
    cases = []
    # every pair of objects of a small universe, embedded at several places of the real address space
    width = 2
    for v in (4, 6):
        w = 32 if v == 4 else 128
        shifts = [0, w - width, r.randint(1, w - width - 1)] + ([7, 15] if v == 4 else [63, 15])
        if ck.thorough:
            shifts += [23, 30 - width, r.randint(1, w - width - 1)]
        for sh in shifts:
            fill = r.getrandbits(w)
            if sh + width < w:      # host bits below the window vary too
                fills = [fill, fill ^ 1]
            else:
                fills = [fill]
            uni = [gen_ip.show(v, *gen_ip.embed(v, sh, width, val, p, f)) for val in range(2 ** width) for p in range(width + 1) for f in fills]
            for x, y in itertools.product(uni, uni):
                if len(fills) == 1 or r.random() < ck.scale(.35, 1):
                    cases.append({"kind": "ippair", "x": S(v, x), "y": S(v, y)})
    for _ in range(ck.scale(600, 12000)):
        v = r.choice([4, 6])
        a, b = gen_ip.near(r, v)[:2]
        cases.append({"kind": "ippair", "x": a, "y": b})
    for _ in range(ck.scale(60, 600)):       # one integer, two families
        n = r.getrandbits(r.choice([1, 8, 32]))
        p = r.choice([32, 24, r.randint(0, 32)])
        x, y = S(4, gen_ip.show(4, n, p)), S(6, gen_ip.show(6, n, p))
        cases.append({"kind": "ippair", "x": x, "y": y} if r.random() < .5 else {"kind": "ippair", "x": y, "y": x})
    for _ in range(ck.scale(400, 6000)):
        v = r.choice([4, 6])
        cases.append({"kind": "ipsort", "xs": gen_ip.near(r, v) + (gen_ip.near(r, v) if r.random() < .3 else [])})
        v = r.choice([4, 6])
        cases.append({"kind": "ipcollapse", "xs": gen_ip.near(r, v) + (gen_ip.near(r, v) if r.random() < .5 else []), "net": r.random() < .3, "tup": r.random() < .3})
    # every set of networks of a two-bit universe
    nets = [(val << (width - p), p) for p in range(width + 1) for val in range(2 ** p)]
    for v in (4, 6):
        w = 32 if v == 4 else 128
        for k in range(len(nets) + 1):
            for sub in itertools.combinations(nets, k):
                if ck.thorough or r.random() < .6:
                    sh = r.choice([0, w - width, 7, 15])
                    fill = r.getrandbits(w)
                    xs = [S(v, gen_ip.show(v, *gen_ip.embed(v, sh, width, a, p, fill))) for a, p in sub]
                    r.shuffle(xs)
                    cases.append({"kind": "ipcollapse", "xs": xs, "net": False, "tup": False})
    for _ in range(ck.scale(500, 8000)):
        v = r.choice([4, 6])
        cases.append({"kind": "ip", "x": gen_ip.inp(r, v), "ops": [dict(gen_ip.op(r, v), op=r.choice(["plus", "minus"]), n=gen_ip.number(r, 32 if v == 4 else 128)) for _ in range(4)]})
    ck.record(cases)
    ck.judge("CheckIP", cases)
    return ck.finish()
