import random
import gen

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 Emit = %s
INVARIANTS Nested Layout Emitted
"""
NAMES = ["system", "interfaces", "ge-0/0/0", "unit 0", "family inet", "protocols", "bgp", "group X", "policy-options", "term 1", "from", "then",
         "inactive: bgp", "replace: foo", "ltm pool /Common/p1", "<*>", "vlans", "a.b", "x*y"]
STMTS = ["host-name r1", "address 10.0.0.1/24", "members [ a b c ]", "description \"foo { bar } baz\"", "apply-groups [ ]", "accept", "mtu 1500",
         "as-path \"^65000 .*$\"", "1 foo", "authentication-key \"$9$abc;def\"", "no-redirects", "neighbor 10.1.1.1", "prefix-list x", "ip address 1.1.1.1"]


def block(r, out, depth, budget):
    for _ in range(r.randint(0, 5)):
        if budget[0] <= 0:
            return
        budget[0] -= 1
        x = r.random()
        pad = r.choice(["", "    " * depth, " " * r.randint(0, 9), "\t" * depth])
        end = r.choice(["", "", " ", "  "])
        if x < .35 and depth < 6:
            out.append(pad + r.choice(NAMES) + r.choice([" {", " {", "{", "  {"]) + end)
            block(r, out, depth + 1, budget)
            out.append(r.choice(["", "    " * depth]) + r.choice(["}", "}", "}", "};", "} "]))
        elif x < .42 and depth:
            out.append(pad + r.choice(NAMES) + " {")
            block(r, out, depth + 1, budget)
            out.append("} else {")
            block(r, out, depth + 1, budget)
            out.append("}")
        elif x < .52:
            out.append(pad + r.choice(["# note", "## last changed {", "# }", "#", "/* remark */", "### a"]))
        elif x < .58:
            out.append(r.choice(["", " ", "   "]))
        elif x < .65:
            out.append(pad + r.choice(NAMES) + r.choice([" { }", " {}", "{ }", " { accept; }", " { a 1; b 2; }"]) + end)
        else:
            out.append(pad + r.choice(STMTS) + r.choice([";", ";", ";", "; ", "", ";;"]) + end)


def run(ck):
    r = random.Random(ck.seed * 7919 + 5)
    g = ck.model_check("MCBrace", CFG % (4, "TRUE"), "GEN", "MCBrace 4 lines")
    if ck.thorough:
        ck.model_check("MCBrace", CFG % (6, "FALSE"), None, "MCBrace 6 lines")
    cases = []

    def add(lines, **x):
        ign = r.random() < .7
        cd = r.choice(["!", "#", "#"])
        kw = {"syntax": "junos", "ignore_blank_lines": ign, "comment": cd}
        o = {"cd": list(cd), "ign": ign, "fac": False, "syn": "junos"}
        if r.random() < .25:
            kw["factory"] = o["fac"] = True
        if (not o["fac"] and ign and not any(lines)) or not lines:
            lines = lines + ["x;"]
        c = gen.tree_case(r, lines, kw, o, **x)
        if r.random() < .25:
            c.update(via="file", content=gen.as_file(r, c["lines"]), lines=[])
        cases.append(c)

    for lines in (g if ck.thorough else r.sample(g, min(len(g), 2000))):
        add(lines)
    for k in range(ck.scale(2000, 20000)):
        out = []
        budget = [r.choice([5, 15, 30, 60])]
        while budget[0] > 0 and len(out) < 80:
            block(r, out, 0, budget)
            budget[0] -= 1
        add(out)
    ck.record(cases)
    ck.judge("CheckTree", cases)
    return ck.finish()
