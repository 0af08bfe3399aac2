import random
import edits, gen, gen_asa, gen_attr, gen_diff, gen_lines, gen_nx, gen_rx, queries

CFG = """INIT Init
NEXT Next
CONSTANTS Confs = {1, 2}
 Texts = {"A", "B"}
 Questions = {1, 2}
 MaxSteps = %d
 Forget = TRUE
 Emit = TRUE
INVARIANTS Fresh Admitted Functional Emitted
"""

SIMPLE = ["find_objects", "find_lines", "find_children", "find_all_children", "find_blocks", "find_lineage"]
PAIRS = ["find_parent_objects", "find_parent_objects_wo_child", "find_child_objects", "find_objects_w_child", "find_objects_wo_child", "find_parents_w_child",
         "find_parents_wo_child", "find_children_w_parents", "find_objects_w_parents", "find_objects_w_all_children", "find_objects_w_missing_children", "find_parent_objects_list"]
SYN = {"ios": [lambda r: gen_attr.config(r, "ios-intf"), lambda r: gen_attr.config(r, "ios-switch"), lambda r: gen_attr.routes(r), lambda r: gen_lines.config(r, False), lambda r: gen_diff.config(r)],
       "nxos": [lambda r: gen_nx.config(r, False), lambda r: gen_nx.vpc(r), lambda r: gen_nx.routes(r), lambda r: gen_lines.config(r, True)],
       "iosxr": [lambda r: gen_nx.config(r, True)], "asa": [lambda r: gen_asa.config(r), lambda r: gen_asa.acls(r), lambda r: gen_asa.intfs(r)]}


def config(r):
    if r.random() < .25:
        lines, kw, o = queries.config(r)
        if kw["syntax"] != "junos":
            return {"lines": lines, "kw": kw, "opts": o}
    syn = r.choice(["ios", "ios", "nxos", "iosxr", "asa"])
    kw, o = gen.opts(r, syn=syn, fac=r.random() < .8, cd="!")
    lines = r.choice(SYN[syn])(r)
    return {"lines": [l for l in (lines[0] if isinstance(lines, tuple) else lines)], "kw": kw, "opts": o}


def question(r, lines):
    x = r.random()
    lines = lines or ["a"]
    pat = lambda: gen_rx.pattern(r, lines)
    base = {"exact": False, "ws": r.random() < .2, "esc": False, "rec": r.random() < .5}
    if x < .3:
        return {"t": "attributes", "f": r.randint(0, 999), "order": r.randint(0, 9)}
    if x < .42:
        return {"t": "tree"}
    if x < .56:
        return {"t": "query", "q": dict(base, m=r.choice(SIMPLE), p=pat())}
    if x < .68:
        m = r.choice(PAIRS)
        return {"t": "query", "q": dict(base, m=m, p=pat(), cs=[gen_rx.literal(r.choice(["a", "ip", "e", "1", "no "])) if r.random() < .5 else pat()], ws=base["ws"])}
    if x < .76:
        return {"t": "query", "q": dict(base, m="branches", srcs=[pat()["src"] for _ in range(r.randint(1, 3))])}
    if x < .84:
        p = gen_rx.pattern(r, lines, groups=1)
        return {"t": "query", "q": dict(base, m=r.choice(["re_match_iter_typed", "parse_re_match_iter_typed", "re_match_typed"]), p=p, group=1 if p["ng"] else 0, ty="str", default="", untyped=False)}
    some = [l for l in lines if r.random() < .6] + r.choice([[], ["hostname other"], [" ip address 9.9.9.9 255.255.255.0"]])
    if x < .90:
        return {"t": "diff", "lines": some}
    if x < .94:
        return {"t": "sync_diff", "lines": some, "rm": r.random() < .6}
    if x < .97:
        return {"t": r.choice(["excl_diff", "all_diff"]), "spec": r.choice(["ip", "a", "^interface", "logging"]), "lines": [l.strip() for l in some][:3]}
    return {"t": r.choice(["copy", "repr"])}


def change(r, c):
    lines = c["lines"] or ["a"]
    m = r.choice(["append_line", "delete_lines", "replace_lines", "insert_before", "insert_after", "obj_delete", "obj_delete", "append_to_family", "re_sub", "prepend_line", "pop", "reverse", "set_text"])
    op = edits.op(r, lines, c["opts"], m)
    if "text" in op and r.random() < .6:
        op["text"] = r.choice(lines) if r.random() < .6 else r.choice([" ip address 10.9.8.7 255.255.255.0", " shutdown", " switchport access vlan 99", "interface GigabitEthernet0/77", " description changed", "name 9.9.9.9 srv"])
    if m in ("obj_delete", "pop", "re_sub", "append_to_family", "set_text"):
        op["f"] = r.randint(0, 999)
    return op


def case(r, hist=None):
    confs = [config(r) for _ in range(2 if hist else r.choice([1, 2, 2, 3]))]
    if r.random() < .5 and len(confs) > 1:      # the same text, or nearly, elsewhere
        confs[1] = dict(confs[0], lines=list(confs[0]["lines"]) if hist is None or r.random() < .5 else [l for l in confs[0]["lines"] if r.random() < .9])
        if r.random() < .6:         # under other options
            kw, o = gen.opts(r, syn=confs[0]["kw"]["syntax"], fac=confs[0]["kw"]["factory"] and r.random() < .6)    # (what only the factory refuses stays without it)
            confs[1].update(kw=kw, opts=o)
    n = len(confs)
    asked = [question(r, confs[i % n]["lines"]) for i in range(2 if hist else r.choice([3, 4, 6]))]
    if r.random() < .6:
        asked[-1] = {"t": "tree"}
    for i, q in enumerate(asked):   # the same question but for one option
        if "q" in q and r.random() < .5:
            k = r.choice(["exact", "ws", "rec", "esc"])
            if k in q["q"]:
                asked[i - 1] = dict(q, q=dict(q["q"], **{k: not q["q"][k]}))
    steps = []
    for h in hist or [{"c": r.randint(1, n), "a": "edit" if r.random() < .2 else "ask", "x": 0} for _ in range(r.choice([6, 10, 14]))]:
        if h["a"] == "ask":
            steps.append({"c": h["c"], "a": "ask", "q": asked[h["x"] - 1] if h["x"] else r.choice(asked)})
        else:
            steps.append({"c": h["c"], "a": "edit", "op": change(r, confs[h["c"] - 1])})
    for i in range(1, n + 1):       # in the end, and on a fresh parse of the same text
        order = list(asked)
        r.shuffle(order)
        steps += [{"c": i, "a": "ask", "q": q} for q in order]
        steps.append({"c": n + i, "a": "fresh"})
        r.shuffle(order)
        where = r.random() < .6     # in a process that was asked nothing before
        steps += [{"c": n + i, "a": "ask", "q": q, "elsewhere": where} for q in order]
    confs = confs + [{"of": i + 1, "kw": confs[i]["kw"]} for i in range(n)]
    return {"kind": "reads", "confs": confs, "steps": steps}


def run(ck):
    r = random.Random(ck.seed * 7919 + 36)
    gens = ck.model_check("MCReads", CFG % (5 if ck.thorough else 4), "GEN", "MCReads 2 configurations, 2 questions")
    gens = r.sample(gens, min(len(gens), ck.scale(500, 8000)))
    cases = [case(r, g["hist"]) for g in gens] + [case(r) for _ in range(ck.scale(700, 9000))]
    ck.record(cases)
    ck.judge("CheckReads", cases)
    return ck.finish(["edits are followed by commit() before the next question"])
