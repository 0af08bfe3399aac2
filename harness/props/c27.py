import random

CFG = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Codes = {%s}
 Seeds = {%s}
INVARIANTS Inverse Sized Periodic Emitted
PROPERTIES Grows
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 27)
    nums = lambda xs: ", ".join(map(str, xs))
    gens = ck.model_check("MCSeven", CFG % (1, nums(range(256)), nums(range(16) if not ck.thorough else range(100))), "GEN", "MCSeven every byte, seeds 0..15 (thorough 0..99)")
    some = r.sample(range(32, 127), 6 if ck.thorough else 4)
    gens += ck.model_check("MCSeven", CFG % (3, nums(some), nums([0, 3, 15, 46, 51, 52, 53, 99])), "GEN", "MCSeven plaintexts of 3 bytes")
    cases = [{"kind": "seven", "e": e, "p": p, "via": "arg"} for e, p in gens]
    vias = ["arg", "init", "both", "again"]
    for _ in range(ck.scale(1500, 15000)):
        n = r.choice([1, 2, 5, 8, 16, 25, 40, 53, 54, 80, 110])
        seed = r.randint(0, 15) if r.random() < .7 else r.randint(16, 99)
        h = "".join("%02x" % r.choice([r.randint(0, 127), r.randint(0, 255)]) for _ in range(n))
        h = r.choice([h, h.upper(), "".join(r.choice([c, c.upper()]) for c in h)])
        e = "%02d%s" % (seed, h)
        x = r.random()
        if x < .05:
            e = e[:-1]                      # odd
        elif x < .08:
            e = r.choice(["ab", "fe", "x1", "1x"]) + e[2:]
        elif x < .1:
            e = e[:2]
        cases.append({"kind": "seven", "e": e, "p": [-1], "via": r.choice(vias) if e else "arg"})
    ck.record(cases)
    ck.judge("CheckSeven", cases)
    return ck.finish()
