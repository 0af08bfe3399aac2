import random
import edits, gen
import props.c01 as c01, props.c05 as c05


CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 MaxIndent = 2
 Bodies = {"a", "!", ""}
 Ign = %s
 Emit = %s
INVARIANTS Laws Idempotent Emitted
"""


def save(r, c):
    return edits.op(r, c["lines"] or ["a"], c["opts"], "save")


LETTERS = {"utf-8": "\u00e4\u0416\u4e2d\U0001f642", "utf-16": "\u00e4\u0416\u4e2d\U0001f642", "latin-1": "\u00e4\u00df", "cp1251": "\u0416\u0444", "shift_jis": "\u30bd\u8868"}


def letters(r, c):
    """some letters outside ASCII, in an encoding that has them"""
    c["kw"] = dict(c["kw"], encoding=r.choice(list(LETTERS)))
    c["letter"] = r.choice(LETTERS[c["kw"]["encoding"]])
    put = lambda t: t if r.random() < .4 else "".join("`" if x in "aeo" and r.random() < .5 else x for x in t)
    if c.get("via") == "file":
        c["content"] = put(c["content"])
    else:
        c["lines"] = [put(l) for l in c["lines"]]


def run(ck):
    r = random.Random(ck.seed * 7919 + 14)
    cases = []
    # 1. re-reading the text of a tree is the identity, with blank lines dropped or kept
    n = ck.scale(4, 5)
    ck.model_check("MCTree", CFG % (n, "FALSE", "FALSE"), None, f"MCTree {n} plain, comment and blank lines")
    for lines in ck.model_check("MCTree", CFG % (n, "TRUE", "TRUE"), "GEN", f"MCTree {n} plain, comment and blank lines, the latter dropped"):
        if len(cases) >= ck.scale(1500, 30000):
            break
        if any(not l.strip() for l in lines):
            kw, o = gen.opts(r, ign=True, fac=False, cd="!", syn=r.choice(gen.SYN))
            c = gen.tree_case(r, list(lines), kw, o, kind="edit", ops=[], fresh=False)
            c["ops"] = [save(r, c)]
            cases.append(c)
    # 2. random configurations and histories
    for k in range(ck.scale(2000, 20000)):
        x = r.random()
        if x < .2:                                     # brace syntaxes: what is saved is the indented form
            out = []
            c05.block(r, out, 0, [r.choice([5, 12, 25])])
            ign = r.random() < .7
            o = {"cd": ["#"], "ign": ign, "fac": False, "syn": "junos"}
            c = gen.tree_case(r, (out if any(l.strip() for l in out) else []) + ["x;"], {"syntax": "junos", "ignore_blank_lines": ign, "comment": "#"}, o, kind="edit", ops=[], fresh=False)
        elif x < .6:
            c = edits.history(r, edits.INS + edits.DEL + edits.REP, nops=3, banners=.4)
            if r.random() < .6:
                c["ops"] = [save(r, c)] + c["ops"]
        else:
            kw, o = gen.opts(r)
            lines = gen.indented(r, r.choice([0, 1, 3, 8, 15]), kw["comment"], blanks=r.choice([0, .2, .5]))
            if o["fac"]:
                lines = [edits.BAD.sub("foo", l) for l in lines]
            elif r.random() < .4:
                pos = r.randint(0, len(lines))
                lines[pos:pos] = c01.banner(r)
            c = gen.tree_case(r, lines, kw, o, kind="edit", ops=[], fresh=False)
            if r.random() < .5:
                c.update(via="file", content=gen.as_file(r, gen.sanitize(lines, o)), lines=[], pathtype=r.choice(["str", "pathlib"]))
        c["ops"] = c["ops"] + [save(r, c)]
        if all(op["m"] in ("save", "append_line", "commit", "pop", "reverse") for op in c["ops"]) and r.random() < .6:
            letters(r, c)
        cases.append(c)
    ck.record(cases)
    ck.judge("CheckEdits", cases)
    return ck.finish(["the platform's line separator is a newline"])
