"""Seeded generators of configurations."""
import random, re

SYN = ["ios", "nxos", "iosxr", "asa"]
WORDS = ["interface", "ip", "address", "Ethernet0/1", "Serial1/0", "GigabitEthernet1/0/1", "vlan", "10", "20", "permit", "deny",
         "any", "host", "10.1.1.1", "255.255.255.0", "description", "a", "b", "c", "foo", "bar", "no", "shutdown", "router",
         "ospf", "1", "area", "neighbor", "route-map", "X", "policy-map", "class", "bandwidth", "percent", "service", "timestamps",
         "name", "speed", "duplex", "full", "exit", "log", "access-list", "switchport", "mode", "trunk"]
META = ["a.b", "x*", "(y)", "[z]", "p+q", "a|b", "$v", "^w", "q?", "\\d", "{1}", "foo{", "}", "{", "} else {", "a{ }"]
PLAIN_TOP = ["interface Ethernet0/1", "interface Ethernet0/2", "interface Serial1/0", "router ospf 1", "policy-map FOO",
             "hostname r1", "ip route 0.0.0.0 0.0.0.0 10.0.0.1", "vlan 10", "line vty 0 4", "class-map BAR",
             "access-list 1 permit any", "1 foo", "11 foo", "end", "exit", "route-map X permit 10", "aaa new-model"]
PLAIN_SUB = ["ip address 10.1.1.1 255.255.255.0", "no shutdown", "shutdown", "description foo bar", "class BAR", "bandwidth percent 10",
             "switchport mode trunk", "permit ip any any", "foo", "1 foo", "neighbor 10.0.0.1 remote-as 1", "match any", "exit-address-family",
             "ip  address  10.1.1.1   255.255.255.0", "set ip next-hop 10.0.0.1", "service-policy FOO"]


def words(r, lo=1, hi=4, meta=0.05):
    out = []
    for _ in range(r.randint(lo, hi)):
        out.append(r.choice(META) if r.random() < meta else r.choice(WORDS))
    return (" " if r.random() < .9 else "  ").join(out)


def body(r, ind, meta=0.05):
    x = r.random()
    if x < .35:
        return r.choice(PLAIN_TOP if ind == 0 else PLAIN_SUB)
    if x < .5:
        return r.choice(["a", "b", "c", "d", "e"])
    return words(r, meta=meta)


def safe(line):
    """not the start of a banner or macro"""
    s = line.lstrip()
    return not (s.startswith(("banner", "set banner", "macro name ", "set ")) or "aaa authentication fail-message" in s)


def indented(r, n, cd="!", comments=.12, blanks=.08, meta=.05, maxind=6, tabs=.02, trail=.1):
    """n lines with an irregular indentation walk"""
    out, ind, levels = [], 0, [0]
    style = r.random()
    for k in range(n):
        x = r.random()
        if style < .25:                               # tame: steps of one
            ind = max(0, min(maxind, ind + r.choice([-2, -1, 0, 0, 1])))
            if r.random() < .15:
                ind = 0
        elif x < .30:
            pass
        elif x < .55:
            ind = min(maxind, ind + r.choice([1, 1, 1, 2, 2, 3, 4]))
        elif x < .75:
            ind = r.choice(levels)
        elif x < .85:
            ind = max(0, ind - 1)
        else:
            ind = 0
        if k == 0 and r.random() < .9:
            ind = 0
        levels = [l for l in levels if l < ind] + [ind] if r.random() < .8 else levels + [ind]
        y = r.random()
        if y < comments:
            ch = r.choice(cd)
            t = " " * r.choice([ind, ind, 0, r.randint(0, maxind)]) + ch + r.choice(["", " note", "foo", " " + words(r, 1, 2, 0), ch])
        elif y < comments + blanks:
            t = r.choice(["", " ", "   ", "\t", "          "])
        else:
            pad = " " * ind
            if ind and r.random() < tabs:
                pad = "\t" * ind
            t = pad + body(r, ind, meta)
        if r.random() < trail:
            t += r.choice([" ", "  ", "\t"])
        if not safe(t):
            t = " " * ind + "foo"
        out.append(t)
    return out


def opts(r, syn=None, ign=None, fac=None, cd=None):
    syn = syn or r.choice(SYN)
    ign = r.random() < .6 if ign is None else ign
    fac = r.random() < .4 if fac is None else fac
    cd = cd or r.choice(["!", "!", "!", "!", "#", "!#"])
    kw = {"syntax": syn, "ignore_blank_lines": ign, "factory": fac, "comment": cd}
    return kw, {"cd": list(cd), "ign": ign, "fac": fac, "syn": syn}


def sanitize(lines, o):
    """the factory's models reject malformed 'name', 'access-list', 'ip route', ... commands by design"""
    if not o["fac"]:
        return lines
    if o["syn"] == "asa":
        lines = [re.sub(r"^(\s*)(name|access-list)\b", r"\1hostname", l) for l in lines]
    return [l if l.startswith("ip route 0.0.0.0 0.0.0.0") and o["syn"] == "ios" else re.sub(r"^(\s*)(ip|ipv6) route", r"\1hostname r", l) for l in lines]


def tree_case(r, lines, kw, o, **extra):
    lines = sanitize(lines, o)
    c = {"kind": "tree", "via": "list", "lines": lines, "content": "", "kw": kw, "opts": o, "textonly": False}
    c.update(extra)
    return c


def as_file(r, lines, eol=None, final=None):
    eol = eol or r.choice(["\n", "\n", "\r\n", "mixed", "\r"])
    s = ""
    for i, l in enumerate(lines):
        e = r.choice(["\n", "\r\n"]) if eol == "mixed" else eol
        s += l + (e if i < len(lines) - 1 or (final if final is not None else r.random() < .8) else "")
    return s


def edited(r, case, prob=.35):
    """reach the lines of the case by edits of another configuration"""
    if r.random() < prob and case["lines"]:
        now, edits = list(case["lines"]), []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(len(now))
            how = r.choice(["ins", "del", "set", "sub"])
            other = r.choice(now)
            if how == "ins" and len(now) > 1:
                edits.append(["ins", k, now.pop(k)])
            elif how == "del":
                edits.append(["del", k, ""])
                now.insert(k, other)
            elif other.strip() and now[k].strip() and other != now[k]:
                edits.append([how if how != "ins" else "set", k, now[k]])
                now[k] = other
        if edits:
            case["before"], case["edits"], case["each"] = now, edits[::-1], r.random() < .5
    return case
