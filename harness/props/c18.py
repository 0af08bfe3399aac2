import random
import gen_ip

MC = """CONSTANTS BITS = %d LIMBS = %d NETBITS = 0
INIT Init
NEXT Next
INVARIANTS NetworkLaw ContainsLaw OrderLaw ArithLaw InverseLaw
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 18)
    for bits, limbs in ck.scale([(2, 2), (1, 3)], [(2, 2), (1, 4), (3, 1), (1, 3), (5, 1)]):
        ck.model_check("MCIP", MC % (bits, limbs), name="MCIP bits=%d limbs=%d" % (bits, limbs))
    cases = [gen_ip.ip_case(r, 4) for _ in range(ck.scale(1500, 20000))]
    # every prefix length, at structured addresses
    for p in range(33):
        for _ in range(ck.scale(2, 8)):
            b = gen_ip.v4bytes(r)
            cases.append({"kind": "ip", "x": gen_ip.S(4, gen_ip.v4text(r, b, p)), "ops": [{"op": "offset", "n": str(max(0, 2 ** (32 - p) + d)), "neg": False} for d in (-1, 0, r.choice([-2, 1, -1]))] + [gen_ip.op(r, 4) for _ in range(2)]})
    cases += [{"kind": "ip", "x": gen_ip.S(4, s), "ops": []} for s in gen_ip.BAD4]
    cases += [gen_ip.factory_case(r) for _ in range(ck.scale(400, 5000))]
    ck.record(cases)
    ck.judge("CheckIP", cases)
    return ck.finish()
