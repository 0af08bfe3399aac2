import random
import gen_diff as g, gen_rx as x
from props.c15 import CFG

ANY = {"src": ".*", "ic": False, "ng": 0, "alts": [[{"k": "r", "cls": ".", "lo": 0, "hi": -1}]]}


def uncfg(r, lines):
    y = r.random()
    if y < .4:
        return ANY
    if y < .7:          # the first words
        n = r.choice([1, 2])
        parts = []
        for i in range(n):
            if i:
                parts.append(("\\s+", {"k": "r", "cls": "s", "lo": 1, "hi": -1}))
            parts.append(("\\S+", {"k": "r", "cls": "S", "lo": 1, "hi": -1}))
        if n == 2:
            parts = parts[:1] + [("\\s*", {"k": "r", "cls": "s", "lo": 0, "hi": -1}), ("\\S*", {"k": "r", "cls": "S", "lo": 0, "hi": -1})]
        return {"src": "".join(p for p, _ in parts), "ic": False, "ng": 0, "alts": [[a for _, a in parts]]}
    return x.pattern(r, lines)


def run(ck):
    r = random.Random(ck.seed * 7919 + 16)
    ck.model_check("MCDiff", CFG % (3, 1, '"a", "b"', "FALSE"), None, "MCDiff pairs of 3 lines, indents 0..1")
    cases = []
    for _ in range(ck.scale(3000, 30000)):
        a, b = g.pair(r)
        lp = ANY if r.random() < .45 else x.pattern(r, a + b, ic=True)
        up = lp if r.random() < .35 else uncfg(r, a)
        cases.append({"kind": "sync", "a": a, "b": b, "lp": lp, "up": up, "remove": r.random() < .8, "default": r.random() < .5,
                      "via": r.choice(["list", "tuple"]), "syn": r.choice(["ios", "ios", "nxos"])})
    for _ in range(ck.scale(800, 8000)):
        a, b = g.pair(r)
        if r.random() < .5:
            b = [l.strip() for l in b]
        b = [l for l in b if any(c.isalpha() for c in l)]
        cases.append({"kind": "alldiff", "a": a, "b": b, "ws": r.random() < .5, "syn": r.choice(["ios", "nxos"])})
    ck.record(cases)
    ck.judge("CheckDiff", cases)
    return ck.finish()
