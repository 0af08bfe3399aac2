"""Pairs of configurations for the diff properties."""
import gen

SECT = ["interface Gi0/1", "interface Gi0/2", "interface Vlan10", "router ospf 1", "ip access-list extended A", "class-map match-any C", "vlan 10", "policy-map P"]
CHILD = ["ip address 10.0.0.1 255.0.0.0", "shutdown", "no shutdown", "description foo", "permit ip any any", "deny tcp any any", "network 10.0.0.0", "name x", "class Q", "logging 1"]
SUB = ["bandwidth 10", "priority", "set dscp ef", "shutdown"]
TOP = ["logging 1", "logging 2", "logging 10.1.1.1", "ntp server 1", "no ip http server", "hostname h", "ip route 0.0.0.0 0.0.0.0 1.1.1.1", "shutdown", "end"]


def config(r, comments=.1):
    out = []
    used = set()
    step = r.choice([1, 1, 2, 3])
    for _ in range(r.randint(1, 6)):
        if r.random() < .35:
            t = r.choice(TOP)
            if t in used and r.random() < .8:
                continue
            used.add(t)
            out.append(t)
            continue
        s = r.choice(SECT)
        if s in used and r.random() < .8:
            continue
        used.add(s)
        out.append(s)
        k = step if r.random() < .9 else r.choice([1, 2, 4])
        for ch in r.sample(CHILD, r.randint(0, 4)):
            out.append(" " * k + ch)
            if r.random() < .25:
                for g in r.sample(SUB, r.randint(1, 3)):
                    out.append(" " * (k + step) + g)
        if r.random() < comments:
            out.append(r.choice(["!", " !", "! note", "  ! x"]))
    return out


def mutate(r, lines):
    out = list(lines)
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        x = r.random()
        i = r.randint(0, len(out))
        if x < .3 and out:
            j = r.randrange(len(out))
            k = r.choice([1, 1, 2])
            del out[j:j + k]
        elif x < .5:
            ind = gen_indent(r, out, i)
            out.insert(i, " " * ind + r.choice(CHILD if ind else TOP + SECT))
        elif x < .65 and out:
            j = r.randrange(len(out))
            out[j] = out[j][:len(out[j]) - len(out[j].lstrip())] + r.choice(CHILD + TOP)
        elif x < .75 and len(out) > 1:
            j, k = r.randrange(len(out)), r.randrange(len(out))
            out[j], out[k] = out[k], out[j]
        elif x < .82 and out:
            out.insert(i, r.choice(out))
        elif x < .9 and out:           # white space
            j = r.randrange(len(out))
            body = out[j].lstrip()
            out[j] = out[j][:len(out[j]) - len(body)] + body.replace(" ", r.choice(["  ", "\t", "   "]), 1) + r.choice(["", " ", "  "])
        else:
            out += config(r)[:r.randint(1, 4)]
    return out


def gen_indent(r, out, i):
    near = [len(l) - len(l.lstrip()) for l in out[max(0, i - 1):i + 1] if l.strip()] or [0]
    return max(0, r.choice(near) + r.choice([0, 0, 0, 1, -1]))


def pair(r):
    if r.random() < .15:
        kw, o = gen.opts(r)
        a = gen.sanitize(gen.indented(r, r.choice([3, 6, 12]), "!", meta=.02, blanks=.05), o)
    else:
        a = config(r)
    b = mutate(r, a) if r.random() < .85 else config(r)
    # neither banners nor macros here, and no lines that are only blank
    ok = lambda l: l.strip() and not any(w in l for w in ("banner", "macro"))
    a, b = [l for l in a if ok(l)], [l for l in b if ok(l)]
    return (a or ["end"]), (b or ["end"])
