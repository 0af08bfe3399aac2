import random
import gen, gen_rx, queries


def run(ck):
    r = random.Random(ck.seed * 7919 + 9)
    cases = []
    for k in range(ck.scale(900, 12000)):
        lines, kw, o = queries.config(r)
        if k % 4 == 0:        # the same words with different numbers, among them zero
            ind, lines = 0, []
            for _ in range(r.choice([3, 6, 10])):
                ind = max(0, min(3, ind + r.choice([-1, 0, 0, 1])))
                lines.append(" " * ind + r.choice(["mtu", "a", "b", "a b"]) + r.choice([" 0", " 00", " 7", " 12", " 100", "", " x"]))
        qs = []
        for _ in range(8):
            m = r.choice(["re_match", "re_match_typed", "re_match_typed", "re_match_iter_typed", "re_match_iter_typed", "groupdict", "re_search",
                          "re_search_children", "parse_re_search_children", "parse_re_match_iter_typed"])
            q = {"m": m, "rec": r.random() < .5, "untyped": r.random() < .4, "ty": "str", "default": r.choice(["", "nothing", "x y"]), "defkind": "str",
                 "group": 0, "exact": False, "ws": False, "esc": False, "types": []}
            num = r.random() < .4
            if m in ("re_search", "re_search_children", "parse_re_search_children"):
                p = gen_rx.pattern(r, lines)
            elif num:
                p = gen_rx.number_pattern(r, lines)
                q["group"] = 1
            else:
                p = gen_rx.pattern(r, lines, groups=r.choice([1, 1, 2]), alts=m in ("re_match", "re_match_typed"))
                q["group"] = r.randint(0, p["ng"])
            q["p"] = p
            if num and m not in ("re_match", "groupdict") and q["group"] == 1:
                q["ty"] = r.choice(["int", "int", "str"])
            if q["ty"] == "int" or (q["ty"] == "str" and r.random() < .2 and m.endswith("typed")):
                q["default"], q["defkind"] = r.choice([-1, 0, 7]), "int"
            if m == "groupdict":
                if p["ng"] == 0:
                    continue
                q["types"] = ["int" if num and r.random() < .6 else "str" for _ in range(p["ng"])]
                src, n = "", 0
                i = 0
                while i < len(p["src"]):
                    ch = p["src"][i]
                    if ch == "\\":
                        src += p["src"][i:i + 2]
                        i += 2
                        continue
                    if ch == "(":
                        n += 1
                        src += "(?P<g%d>" % n
                    else:
                        src += ch
                    i += 1
                q["named"] = src
                q["default"] = r.choice(["none", "", -1])
            qs.append(q)
        cases.append(gen.edited(r, gen.tree_case(r, lines, kw, o, kind="query", queries=qs)))
    ck.record(cases)
    ck.judge("CheckQuery", cases)
    return ck.finish()
