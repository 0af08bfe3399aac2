import random
import gen, gen_rx, queries


def run(ck):
    r = random.Random(ck.seed * 7919 + 6)
    queries.model(ck)
    cases = []
    for k in range(ck.scale(900, 12000)):
        lines, kw, o = queries.config(r)
        qs = []
        for _ in range(8):
            m = r.choice(["find_objects", "find_objects", "find_lines", "find_children", "find_all_children", "find_blocks", "find_lineage", "has_line_with", "cl_has_line_with"])
            exact = r.random() < .3
            p = gen_rx.pattern(r, lines, ic=not exact)
            if exact and r.random() < .5:
                cand = [l for l in lines if l.strip()]
                if cand:
                    p = dict(gen_rx.literal(r.choice(cand).rstrip()))
                    p["src"] = gen_rx.lit(p["src"])[0]
            q = {"m": m, "p": p, "exact": exact, "ws": r.random() < .3 and m != "find_lineage"}
            if m == "find_objects" and not exact and not q["ws"] and r.random() < .2:
                q["form"] = "compiled"
            qs.append(q)
        cases.append(gen.edited(r, gen.tree_case(r, lines, kw, o, kind="query", queries=qs)))
    ck.record(cases)
    ck.judge("CheckQuery", cases)
    return ck.finish()
