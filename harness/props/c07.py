import random
import gen, gen_rx, queries

M = ["find_parent_objects", "find_parent_objects_wo_child", "find_child_objects", "find_objects_w_child", "find_objects_wo_child",
     "find_parents_w_child", "find_parents_wo_child", "find_children_w_parents", "find_objects_w_parents", "find_objects_w_all_children",
     "find_objects_w_missing_children", "find_parent_objects_list", "find_child_objects_list"]


def run(ck):
    r = random.Random(ck.seed * 7919 + 7)
    queries.model(ck)
    cases = []
    for k in range(ck.scale(900, 12000)):
        lines, kw, o = queries.config(r)
        plain = [l.rstrip() for l in lines if l.strip() and not set(l) & set("()[]{}?*+|^$\\.\t")]
        qs = []
        for _ in range(8):
            m = r.choice(M)
            nc = r.choice([1, 2, 2, 3]) if m.endswith(("children", "_list")) else 1
            canesc = m in ("find_parent_objects", "find_parent_objects_wo_child", "find_child_objects", "find_parent_objects_list", "find_child_objects_list")
            esc = canesc and r.random() < .25
            ws = r.random() < .3
            pick = (lambda: gen_rx.literal(gen_rx.fragment(r, lines))) if esc else (lambda: gen_rx.pattern(r, lines, ic=True))
            # make hits likely: parent and child expressions from lines which are related
            p, cs = pick(), [pick() for _ in range(nc)]
            if r.random() < .5 and lines:
                i = r.randint(0, len(lines) - 1)
                p = pick() if esc else gen_rx.pattern(r, lines[max(0, i - 1):i + 1])
                cs = [gen_rx.literal(gen_rx.fragment(r, lines[i:i + 6])) if esc else gen_rx.pattern(r, lines[i:i + 6]) for _ in range(nc)]
            if r.random() < .2 and not esc:     # something short that matches many lines
                cs = [gen_rx.literal(r.choice(["a", "b", "e", "i", "1"])) for _ in range(nc)]
                if r.random() < .5:
                    p = gen_rx.literal(r.choice(["a", "b", "e", "i", " "]))
            q = {"m": m, "p": p, "cs": cs, "ws": ws, "esc": esc, "exact": False, "rec": r.random() < .5 and m in
                 ("find_parent_objects", "find_parent_objects_wo_child", "find_child_objects", "find_objects_w_child", "find_objects_wo_child",
                  "find_objects_w_all_children", "find_parent_objects_list", "find_child_objects_list")}
            if m in ("find_parent_objects", "find_parent_objects_wo_child", "find_child_objects") and plain and r.random() < .25:
                which = r.choice(["p", "c", "pc"])
                if "p" in which:
                    q["p"], q["pform"] = gen_rx.literal(r.choice(plain)), "obj"
                if "c" in which:
                    q["cs"], q["cform"] = [gen_rx.literal(r.choice(plain))], "obj"
            if m.endswith("_list"):
                q["seq"] = r.choice(["list", "tuple"])
            qs.append(q)
        cases.append(gen.edited(r, gen.tree_case(r, lines, kw, o, kind="query", queries=qs)))
    ck.record(cases)
    ck.judge("CheckQuery", cases)
    return ck.finish()
