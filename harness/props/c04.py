import random
import gen

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 Bodies = {%s}
 Emit = TRUE
 Ign = %s
INVARIANTS Laws Emitted
"""
A1 = ["banner motd ^", "banner exec c", "banner login ^ x ^", " hi", "^", "c bye", "", "int a"]
A2 = ["macro name m", "@", "hi", " @", "banner motd ^", "^", " ", "! x", "@x"]
A3 = ["set banner motd ^C", "banner motd  #", "banner lcd #a#", "#", "^C", " sub", "aaa authentication banner ^", "end"]


def run(ck):
    r = random.Random(ck.seed * 7919 + 4)
    cases = []
    for nm, al in (("banners", A1), ("macros", A2), ("forms", A3)):
        n = ck.scale(4, 5)
        g = ck.model_check("MCBanner", CFG % (n, ", ".join('"%s"' % a for a in al), "TRUE" if nm != "forms" else "FALSE"), "GEN", "MCBanner %s, %d lines" % (nm, n))
        g = [x for x in g if any("banner" in l or "macro" in l for l in x[:-1])]
        for lines in (g if ck.thorough else r.sample(g, min(len(g), 1500))):
            kw, o = gen.opts(r, cd="!", syn=r.choice(["ios", "ios", "nxos", "iosxr", "asa"]))
            cases.append(gen.tree_case(r, lines, kw, o))
    for k in range(ck.scale(1500, 20000)):
        kw, o = gen.opts(r, cd="!")
        lines = gen.indented(r, r.choice([0, 2, 5, 10, 20]), "!", meta=.02)
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.randint(0, len(lines))
            lines[x:x] = banner(r)
        c = gen.tree_case(r, lines, kw, o)
        if r.random() < .3:
            c.update(via="file", content=gen.as_file(r, c["lines"]), lines=[])
        cases.append(c)
    ck.record(cases)
    ck.judge("CheckTree", cases)
    return ck.finish()


def banner(r):
    d = r.choice(["^C", "^", "#", "@", "c", "x", "$$", "|", "*", "~", "%", "^c", "\\", "(", "+", "["])
    body = [r.choice(["", " ", "hello", " hi there", "  two", "    deep", "! not a comment", " !foo", "}", " }", "foo {", "interface Ethernet0/1", "1 foo", "*****", "a.b*c", "@ echo", "@x @"])
            for _ in range(r.randint(0, 6))]
    x = r.random()
    if x < .2:
        return ["macro name " + r.choice(["m1", "foo bar"])] + body + (["@"] if r.random() < .85 else [])
    pre = r.choice(["banner ", "banner ", "banner ", "set banner ", "  banner "])
    typ = r.choice(["motd", "login", "exec", "incoming", "lcd", "telnet", "motd", "slip-ppp", "prompt-timeout"])
    if x < .35:
        return [pre + typ + " " + d + r.choice(["one line", "", " a b "]) + d]
    body = [b for b in body if d[0] not in b]
    end = r.choice([[d], ["bye " + d], [" " + d], [d + " bye"], ["so " + d + " long"], []] if r.random() < .3 else [[d]])
    return [pre + typ + r.choice([" ", " ", "  "]) + d + r.choice(["", "Welcome", " to the"])] + body + end
