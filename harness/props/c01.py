import random
import gen


def run(ck):
    r = random.Random(ck.seed * 7919 + 1)
    cases = []
    for k in range(ck.scale(4000, 40000)):
        kw, o = gen.opts(r)
        n = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
        lines = gen.indented(r, n, kw["comment"], blanks=r.choice([0, .1, .4]), meta=r.choice([.02, .3]), trail=.2)
        if r.random() < .35 and lines:
            pos = r.randint(0, len(lines))
            lines[pos:pos] = banner(r)
        if r.random() < .15:            # form feeds are white space too
            lines = [l + r.choice(["\f", " \f", "\f "]) if r.random() < .2 else l for l in lines]
        c = gen.tree_case(r, lines, kw, o, textonly=True)
        x = r.random()
        if x < .35:
            c.update(via="file", content=gen.as_file(r, gen.sanitize(lines, o)), lines=[], pathtype=r.choice(["str", "pathlib"]))
        cases.append(c)
    ck.record(cases)
    ck.judge("CheckTree", cases)
    return ck.finish(["text is ASCII; universal newlines as Python's text mode defines them"])


def banner(r):
    d = r.choice(["^C", "^", "#", "@", "c", "x", "$$"])
    body = [r.choice(["", " ", "hello", " hi there", "  two", "! not a comment", "}", "foo {", "1 foo"]) for _ in range(r.randint(0, 4))]
    body = [b for b in body if d[0] not in b]
    if r.random() < .15:
        return ["macro name " + r.choice(["m1", "foo"])] + body + ["@"]
    return ["banner %s %s" % (r.choice(["motd", "login", "exec", "incoming", "lcd", "telnet"]), d) + r.choice(["", "Welcome"])] + body + [r.choice([d, "bye " + d])]
