"""Random editing histories (C10-C13)."""
import gen, gen_rx, queries, re

BAD = re.compile(r"\b(name|access-list|macro|banner|route|set)\b")


def nonempty(p):
    return all(any((a["k"] == "c" and a["s"]) or (a["k"] == "r" and a["lo"] > 0) for a in alt) for alt in p["alts"])


def pat(r, lines, groups=0, sub=False):
    for _ in range(20):
        p = gen_rx.pattern(r, lines, groups=groups)
        if sub and not nonempty(p):
            continue
        return p
    return gen_rx.literal("a")


def text(r, o, blank=0.0):
    if r.random() < blank:
        return r.choice([" ", "   "] if o["ign"] else ["   ", "  ", " "])
    x = r.random()
    if x < .1:
        t = " " * r.randint(0, 3) + r.choice(o["cd"]) + r.choice(["", " note"])
    elif x < .13:
        t = r.choice(["banner motd ^C", "^C", "}", "foo {"])
    else:
        t = " " * r.choice([0, 0, 1, 1, 1, 2, 3]) + r.choice(["a", "b", "a b", "foo", "no shutdown", "description x", "interface Ethernet0/9", "1 foo", gen.words(r)])
    t += r.choice(["", "", "", " ", "\t"])
    return BAD.sub("foo", t) if o["fac"] else t


def repl(r, ng):
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        if ng and r.random() < .5:
            out.append({"k": "g", "n": r.randint(1, ng)})
        else:
            out.append({"k": "lit", "s": r.choice(["X", "a", "aa", "foo bar", "b ", " ", "y\\z", "10", "! x"])})
    return out


INS = ["insert_before", "insert_before", "insert_after", "insert_after", "cl_insert_before", "cl_insert_after", "obj_insert_before", "obj_insert_after",
       "append_to_family", "append_to_family", "insert_after_child", "append_line", "prepend_line", "cl_insert"]
DEL = ["obj_delete", "obj_delete", "delete_lines", "delete_lines", "delete_children_matching", "pop", "remove", "del"]
REP = ["replace_lines", "replace_lines", "replace_children", "replace_all_children", "re_sub", "obj_replace", "set_text"]
COM = ["commit", "commit", "atomic", "reverse"]


def op(r, lines, o, m, inner=False):
    q = {"m": m, "f": r.randint(0, 999), "text": "a", "exact": False, "ws": False, "atomic": False, "hasex": False, "nvi": -1, "ex": gen_rx.literal("zz"),
         "p": gen_rx.literal("a"), "rec": False}
    if m == "each":
        q["op"] = op(r, lines, o, r.choice(["obj_delete", "obj_delete", "append_to_family", "append_to_family", "obj_insert_after", "obj_insert_before", "delete_children_matching"]), True)
        q["rev"] = r.random() < .3
        q["p"] = pat(r, lines)
        return q
    if m in ("insert_before", "insert_after"):
        q.update(p=pat(r, lines), text=text(r, o, .05), exact=r.random() < .25, ws=r.random() < .2, atomic=r.random() < .25, nvi=r.choice([-1, -1, -1, 0, 1, 2]),
                 names=r.choice(["new", "new", "old"]))
    elif m in ("cl_insert_before", "cl_insert_after"):
        q.update(p=pat(r, lines), text=text(r, o, .05), atomic=r.random() < .25)
    elif m == "insert_after_child":
        q.update(p=pat(r, lines), c=pat(r, lines), text=text(r, o, .03), exact=r.random() < .15, atomic=r.random() < .3)
    elif m in ("obj_insert_before", "obj_insert_after"):
        q.update(text=text(r, o, 0 if inner else .05), asobj=r.random() < .25)
    elif m == "append_to_family":
        q.update(text=text(r, o, 0), indent=r.choice([-1, -1, 0, 1, 2]), auto=r.random() < .4, width=r.choice([1, 1, 2, 4]))
    elif m == "append_line":
        q.update(text=text(r, o, .08))
    elif m == "prepend_line":
        q.update(text=text(r, o))
    elif m == "cl_insert":
        q.update(text=text(r, o), i=r.choice([0, 1, 2, 3, 5, 100, -1, -2, -100]))
    elif m == "obj_delete":
        q.update(recurse=r.random() < .75)
    elif m == "delete_lines":
        q.update(p=pat(r, lines), exact=r.random() < .25, ws=r.random() < .15)
    elif m == "delete_children_matching":
        q.update(p=pat(r, lines))
    elif m in ("replace_lines", "re_sub", "obj_replace"):
        p = pat(r, lines, r.choice([0, 0, 1, 2]), True)
        q.update(p=p, repl=repl(r, p["ng"]), exact=m == "replace_lines" and r.random() < .2, atomic=m == "replace_lines" and r.random() < .3)
        if m != "replace_lines":
            q["atomic"] = False
    elif m in ("replace_children", "replace_all_children"):
        c = pat(r, lines, r.choice([0, 0, 1]), True)
        q.update(p=pat(r, lines), c=c, repl=repl(r, c["ng"]), exact=r.random() < .15, atomic=r.random() < .3)
    elif m == "set_text":
        q.update(text=text(r, o))
    if m in ("replace_lines", "re_sub", "obj_replace", "replace_children", "replace_all_children", "insert_after_child") and r.random() < .25:
        q.update(hasex=True, ex=pat(r, lines))
    if "repl" in q and q.get("c", q["p"])["ng"] == 0 and r.random() < .12:
        # the replacement brings back what it replaces
        q["repl"] = [{"k": "lit", "s": r.choice(["", "x", "no "]) + re.sub(r"[^A-Za-z0-9 ]", "", q.get("c", q["p"])["src"])[:6] + r.choice(["", "x"])}]
    if r.random() < .4:
        aim(r, q, lines)
    return q


def aim(r, q, lines):
    """point the operation at a section of the configuration: its parent, its children, some of them excluded"""
    ind = [len(l) - len(l.lstrip()) for l in lines]
    fam = [i for i in range(len(lines) - 1) if ind[i + 1] > ind[i] and lines[i].split()]
    if not fam:
        return
    i = r.choice(fam)
    n = next((k for k in range(i + 1, len(lines)) if ind[k] <= ind[i]), len(lines))
    below = [l for l in lines[i + 1:n] if l.split()]
    def word(l):
        ws = re.findall(r"[A-Za-z0-9]+", l) or ["a"]
        w = r.choice(ws)
        return gen_rx.literal(w if r.random() < .8 else r.choice(w))
    if "c" in q:
        q["p"] = word(lines[i])
        if q["c"]["ng"] == 0 and below:
            q["c"] = word(r.choice(below))
    elif q["m"] in ("obj_delete", "append_to_family", "delete_children_matching", "obj_insert_after", "obj_insert_before"):
        q["f"] = min(999, -(-i * 1000 // len(lines)))
        if q["m"] == "delete_children_matching" and below:
            q["p"] = word(r.choice(below))
    elif "p" in q and q["p"]["ng"] == 0 and below:
        q["p"] = word(r.choice(below + [lines[i]]))
    if "c" in q and q["c"]["ng"] == 0 and len(below) > 1 and r.random() < .5:
        # an excluded child before one that is not, both named by the child expression
        a, b = sorted(r.sample(range(len(below)), 2))
        both = [w for w in re.findall(r"[A-Za-z0-9]+", below[b]) if w in below[a]] or [ch for ch in below[b] if ch.isalnum() and ch in below[a]]
        only = [w for w in re.findall(r"[A-Za-z0-9]+", below[a]) + [ch for ch in below[a] if ch.isalnum()] if w not in below[b]]
        if both:
            q["c"] = gen_rx.literal(r.choice(both))
            if only:
                q.update(hasex=True, ex=gen_rx.literal(r.choice(only)))
    elif below and "c" in q and r.random() < .5 or q["hasex"]:
        q.update(hasex=True, ex=word(r.choice(below or [lines[i]])))


def history(r, focus, nops=6, banners=.1):
    import props.c01 as c01
    lines, kw, o = queries.config(r)
    if o["fac"]:
        lines = [BAD.sub("foo", l) for l in lines]
    if r.random() < banners and not o["fac"]:
        pos = r.randint(0, len(lines))
        lines[pos:pos] = c01.banner(r)
    ops = []
    for _ in range(r.randint(1, nops)):
        x = r.random()
        pool = focus if x < .6 else INS + DEL + REP + ["each"]
        if r.random() < .15:
            pool = COM
        ops.append(op(r, lines, o, r.choice(pool)))
    return gen.tree_case(r, lines, kw, o, kind="edit", ops=ops, fresh=False)


def small_ops():
    """the operations of the exhaustive model"""
    def q(m, **k):
        d = {"m": m, "f": 0, "text": "n", "exact": False, "ws": False, "atomic": False, "hasex": False, "nvi": -1, "ex": gen_rx.literal("zz"),
             "p": gen_rx.literal("a"), "rec": False}
        d.update(k)
        return d
    L = gen_rx.literal
    sub = [{"k": "lit", "s": "X"}]
    return {
        "C10": [q("insert_before", text="a"), q("insert_after", text=" n"), q("insert_after", text="n", nvi=2, atomic=True), q("insert_before", p=L("b"), exact=True),
                q("cl_insert_before", p=L("b")), q("obj_insert_before", text=" a", f=500), q("obj_insert_after", text=" n", f=0),
                q("append_to_family", text="n", indent=-1, auto=True, width=1), q("append_to_family", text=" n", indent=-1, auto=False, width=1, f=400),
                q("insert_after_child", c=L("b"), text=" n"), q("insert_after_child", c=L("a"), text="  n", atomic=True), q("append_line", text=" n"),
                q("prepend_line"), q("cl_insert", i=-1), q("obj_delete", recurse=True, f=500), q("commit")],
        "C11": [q("obj_delete", recurse=True, f=0), q("obj_delete", recurse=True, f=500), q("obj_delete", recurse=False, f=0), q("obj_delete", recurse=False, f=500),
                q("obj_delete", recurse=True, f=999), q("delete_lines"), q("delete_lines", p=L("b")), q("delete_lines", p=L("b"), exact=True),
                q("delete_children_matching", p=L("b"), f=0), q("delete_children_matching", f=400),
                q("each", op=q("obj_delete", recurse=True), rev=False), q("each", p=L("b"), op=q("obj_delete", recurse=False), rev=True),
                q("insert_before", p=L("b"), text=" a"), q("insert_after", text="  b"), q("commit"), q("del", f=300)],
        "C12": [q("replace_lines", repl=sub), q("replace_lines", repl=[]), q("replace_lines", repl=[{"k": "lit", "s": "aa"}], atomic=True), q("replace_lines", p=L("b"), repl=[{"k": "lit", "s": " a"}], exact=True),
                q("replace_children", c=L("b"), repl=sub), q("replace_children", c=L("a"), repl=[]), q("replace_all_children", c=L("b"), repl=[{"k": "lit", "s": "bb"}]),
                q("replace_all_children", c=L("a"), repl=[], hasex=True, ex=L("b")), q("replace_all_children", p=L(""), c=L("b"), repl=sub),
                q("re_sub", p=L("b"), repl=[{"k": "lit", "s": "!"}], f=500), q("re_sub", repl=[], f=0), q("commit"), q("insert_after", text=" ab"), q("obj_delete", recurse=True, f=300)],
    }


CFG = """INIT Init
NEXT Next
CONSTANTS NLines = %d
 MaxIndent = %d
 Bodies = {%s}
 MaxOps = %d
 Emit = %s
INVARIANTS Consistent InsertLaw DeleteLaw ReplaceLaw CommitLaw CommitFresh %s
"""


def model(ck, prop, nlines, maxind, bodies, nops, replay=True, sample=None):
    import json
    ops = small_ops()[prop]
    got = ck.model_check("MCEdits", CFG % (nlines, maxind, bodies, nops, "TRUE" if replay else "FALSE", "Emitted" if replay else ""), "GEN" if replay else None,
                         "MCEdits %s: %d lines, indents 0..%d, %d operations of %d" % (prop, nlines, maxind, nops, len(ops)), {"ops.json": json.dumps(ops)})
    o = {"cd": ["!"], "ign": True, "fac": False, "syn": "ios"}
    kw = {"syntax": "ios", "ignore_blank_lines": True, "factory": False, "comment": "!"}
    cases = [{"kind": "edit", "via": "list", "lines": g["lines"], "content": "", "kw": kw, "opts": o, "textonly": False, "fresh": False,
              "ops": [ops[k - 1] for k in g["hist"]]} for g in got or []]
    return cases
