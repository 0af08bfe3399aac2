import random
import gen_diff as g

CFG = """INIT Init
NEXT Next
CONSTANTS MaxLines = %d
 MaxIndent = %d
 Bodies = {%s}
 Emit = %s
INVARIANTS Forward Back Idle Closed ClosedOn Emitted
"""
# settings of one value: at most one in a section
SINGLE = [("interface", "ip address"), ("interface", "description"), ("vlan", "name")]
VIA = ["text", "text", "textnl", "list", "tuple", "file"]


def tidy(lines):
    out, seen, top = [], set(), ""
    for l in lines:
        b = l.strip()
        if b.startswith(("no ", "banner", "ip access-list", "version")) or "list" in b or not any(ch.isalpha() for ch in b + "x"):
            continue
        if l == b:
            top = b
        else:
            hit = [w for s, w in SINGLE if top.startswith(s) and b.startswith(w)]
            if hit:
                if (top, hit[0]) in seen:
                    continue
                seen.add((top, hit[0]))
        out.append(l)
    return out


def regular(r):
    """sections with one indentation step, so that any reader sees the same families"""
    out, step = [], r.choice([1, 1, 2, 3])
    for t in r.sample(g.TOP[:4] + g.SECT[:2] + ["interface Vlan10", "router ospf 1", "class-map match-any C", "vlan 10", "policy-map P"], r.randint(1, 6)):
        out.append(t)
        if t.split()[0] in ("interface", "router", "class-map", "vlan", "policy-map"):
            for ch in r.sample(g.CHILD, r.randint(0, 4)):
                out.append(" " * step + ch)
                if r.random() < .3:
                    out += [" " * 2 * step + x for x in r.sample(g.SUB, r.randint(1, 3))]
        if r.random() < .1:
            out.append(r.choice(["!", "! note"]))
    return out


def run(ck):
    r = random.Random(ck.seed * 7919 + 29)
    gens = ck.model_check("MCRoll", CFG % (3, 1, '"a", "b"', "TRUE"), "GEN", "MCRoll pairs of 3 lines, indents 0..1")
    ck.model_check("MCRoll", CFG % (3, 2, '"a", "b"' if ck.thorough else '"a"', "FALSE"), None, "MCRoll indents 0..2")
    cases = []
    for a, b in (gens if ck.thorough else r.sample(gens, min(1500, len(gens)))):
        if (a and a[0][0] == " ") or (b and b[0][0] == " "):
            continue
        cases.append({"kind": "roll", "a": a, "b": b, "via": ["text", "text"]})
    for _ in range(ck.scale(2500, 25000)):
        a = regular(r)
        b = regular(r) if r.random() < .3 else mutate(r, a)
        a, b = tidy(a), tidy(b)
        v = [r.choice(VIA) if x else "none" for x in (a, b)]
        if r.random() < .05:
            i = r.randrange(2)
            v[i] = "none"
            a, b = ([], b) if i == 0 else (a, [])
        cases.append({"kind": "roll", "a": a, "b": b, "via": v})
    ck.record(cases)
    ck.judge("CheckRoll", cases)
    return ck.finish()


def mutate(r, lines):
    """drop or add whole families, replace leaves, move sections"""
    out = list(lines)
    ind = lambda l: len(l) - len(l.lstrip())
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        if not out:
            return regular(r)
        i = r.randrange(len(out))
        j = i + 1
        while j < len(out) and ind(out[j]) > ind(out[i]):
            j += 1
        x = r.random()
        if x < .35:
            del out[i:j]
        elif x < .7:
            out.insert(j, " " * ind(out[i]) + r.choice(g.CHILD if ind(out[i]) else g.TOP))
        elif x < .8:
            out[i:j] = [" " * ind(out[i]) + r.choice(g.CHILD if ind(out[i]) else g.SECT)]
        elif x < .9 and ind(out[i]) == 0:
            out = out[:i] + out[j:] + out[i:j]
        else:
            b = out[i].lstrip()
            out[i] = " " * ind(out[i]) + b.replace(" ", "  ") + r.choice(["", " "])
    return out
