import random
import gen, gen_rx, queries


def nested(r, n):
    lines, ind = [], 0
    for k in range(n):
        ind = max(0, min(5, ind + r.choice([-3, -2, -1, 0, 1, 1, 1])))
        lines.append(" " * ind + r.choice(["ltm pool A", "members", "member 10", "address 10.1.1.1", "policy x", "a", "b", "vlan 10", "vlan 20", "a b"]))
    return lines


def run(ck):
    r = random.Random(ck.seed * 7919 + 8)
    queries.model(ck)
    cases = []
    for k in range(ck.scale(900, 12000)):
        lines, kw, o = queries.config(r)
        if r.random() < .6:
            lines = nested(r, r.choice([4, 8, 14, 25]))
        qs = []
        for _ in range(6):
            m = r.choice(["branches", "branchgroups"])
            depth = r.choice([1, 2, 2, 3, 3, 4])
            cs = []
            for d in range(depth):
                x = r.random()
                if x < .35:      # broad
                    cs.append({"src": "\\S", "ic": False, "ng": 0, "alts": [[{"k": "r", "cls": "S", "lo": 1, "hi": 1}]]} if r.random() < .5 else
                              {"src": "(\\S+)", "ic": False, "ng": 1, "alts": [[{"k": "(", "n": 1}, {"k": "r", "cls": "S", "lo": 1, "hi": -1}, {"k": ")", "n": 1}]]})
                elif d == 0:
                    cs.append(gen_rx.pattern(r, [l for l in lines if not l.startswith(" ")] or lines, groups=r.choice([0, 1, 2])))
                else:
                    cs.append(gen_rx.pattern(r, [l for l in lines if l.startswith(" ")] or lines, groups=r.choice([0, 1, 2]), alts=True))
            ic = r.random() < .2
            srcs = [c["src"] for c in cs]
            if ic:
                srcs = [s if any(ch in s for ch in "\\") else s.upper() for s in srcs]
                for c in cs:
                    c["ic"] = True
            q = {"m": m, "cs": cs, "srcs": srcs, "flag_ic": ic, "exact": False, "ws": False, "esc": False, "rec": False}
            qs.append(q)
        cases.append(gen.edited(r, gen.tree_case(r, lines, kw, o, kind="query", queries=qs)))
    ck.record(cases)
    ck.judge("CheckQuery", cases)
    return ck.finish()
