import random
import gen

CFG = """SPECIFICATION Spec
CONSTANTS MaxLines = %d
 Emit = %s
INVARIANTS Reads Emitted
PROPERTIES Grows
"""
PHYS = ["ge-0/0/0", "ge-0/0/1", "xe-1/0/3", "ae0", "lo0", "vlan", "irb", "interface-range community", "interface-range A", "et-0/0/1", "st0", "me0", "fxp0"]
UNITS = ["unit 0", "unit 0", "unit 1", "unit 100", "unit 32767"]
LEAVES = ["mtu 1500", "description uplink", "description \"to unit 3\"", "description \"family ethernet-switching\"", "disable", "vlan-tagging", "member ge-0/0/1",
          "speed 1g", "unit 7", "gigether-options", "member-range ge-0/0/1 to ge-0/0/5", "units", "unitary 3"]
FAM = ["family inet", "family inet6", "family ethernet-switching", "family ethernet-switching", "family mpls", "apply-groups X"]
OTHERS = ["system", "protocols", "vlans", "groups", "routing-instances", "firewall", "ethernet-switching-options", "interface-range x", "interface", "class-of-service"]


def write(r, out, depth, body, name, style):
    pad = " " * (4 * depth) if style else r.choice(["", " " * r.randint(0, 6), "\t"])
    x = r.random()
    if body is None:
        out.append(pad + name + r.choice([";", ";", "; ", ";  "] + ([" { }", " {}"] if "[" not in name else [])))
        return
    out.append(pad + name + r.choice([" {", " {", " { ", "{"]))
    body(r, out, depth + 1, style)
    out.append(pad + r.choice(["}", "}", "} ", "};"]))


def note(r, out, depth):
    if r.random() < .1:
        out.append(" " * (4 * depth) + r.choice(["# note", "## last commit", "# unit 3 {", "# }"]))


def family(r, out, depth, style):
    for _ in range(r.randint(0, 2)):
        note(r, out, depth)
        write(r, out, depth, None if r.random() < .7 else family, r.choice(["port-mode access", "address 10.1.1.1/24", "family ethernet-switching", "unit 4", "members [ a b ]", "vlan", "filter"]), style)


def unit(r, out, depth, style):
    for _ in range(r.randint(0, 3)):
        note(r, out, depth)
        write(r, out, depth, family if r.random() < .6 else None, r.choice(FAM + LEAVES), style)


def phys(r, out, depth, style):
    for _ in range(r.randint(0, 4)):
        note(r, out, depth)
        if r.random() < .5:
            write(r, out, depth, unit if r.random() < .85 else None, r.choice(UNITS), style)
        else:
            write(r, out, depth, unit if r.random() < .3 else None, r.choice(LEAVES + FAM), style)


def interfaces(r, out, depth, style):
    for _ in range(r.randint(0, 4)):
        note(r, out, depth)
        write(r, out, depth, phys if r.random() < .85 else None, r.choice(PHYS), style)


def anything(r, out, depth, style):
    for _ in range(r.randint(0, 3)):
        name = r.choice(OTHERS + PHYS + UNITS + ["interfaces", "interfaces"])
        write(r, out, depth, None if depth > 4 or r.random() < .3 else r.choice([anything, interfaces, phys]), name, style)


def config(r):
    out = []
    style = r.random() < .6
    for _ in range(r.randint(1, 4)):
        x = r.random()
        note(r, out, 0)
        if x < .6:
            write(r, out, 0, interfaces, "interfaces", style)
        else:
            write(r, out, 0, anything if r.random() < .85 else None, r.choice(OTHERS + ["ge-0/0/0", "unit 0"]), style)
    return out


def case(r, lines):
    kw, o = gen.opts(r, syn="junos", fac=r.random() < .3, cd="#")
    c = {"kind": "attr", "what": "junos", "via": "list", "content": "", "lines": lines, "kw": kw, "opts": o, "nets": []}
    if r.random() < .2:
        c.update(via="file", content=gen.as_file(r, lines), lines=[])
    return c


def run(ck):
    r = random.Random(ck.seed * 7919 + 33)
    g = ck.model_check("MCJunos", CFG % (4, "TRUE"), "GEN", "MCJunos 4 lines")
    ck.model_check("MCJunos", CFG % (6 if ck.thorough else 5, "FALSE"), None, "MCJunos %d lines" % (6 if ck.thorough else 5))
    cases = [case(r, list(l)) for l in (g if ck.thorough else r.sample(g, min(len(g), 1500)))]
    cases += [case(r, config(r)) for _ in range(ck.scale(1500, 15000))]
    ck.record(cases)
    ck.judge("CheckAttr", cases)
    return ck.finish()
