"""Search expressions: a Python regex source and the same expression as Rx atoms."""
META = set("()[]{}?*+|^$\\.")
CLS = [("S", "\\S"), ("d", "\\d"), ("w", "\\w"), (".", "."), ("s", "\\s"), ("D", "\\D")]


def lit(s):
    return "".join("\\" + c if c in META else c for c in s), {"k": "c", "s": s}


def rep(r, cls=None, empty=True):
    c, src = cls or r.choice(CLS)
    lo, hi, q = r.choice([(1, -1, "+"), (1, -1, "+"), (0, -1, "*"), (1, 1, ""), (2, 2, "{2}"), (0, 1, "?")] if empty else [(1, -1, "+"), (1, 1, "")])
    return src + q, {"k": "r", "cls": c, "lo": lo, "hi": hi}


def merge(parts):
    out = []
    for s, a in parts:
        if out and a["k"] == "c" and out[-1][1]["k"] == "c":
            t = out[-1][1]["s"] + a["s"]
            out[-1] = lit(t)
        else:
            out.append((s, a))
    return out


def fragment(r, lines):
    """a piece of some line"""
    cand = [l for l in lines if l.strip()]
    if not cand or r.random() < .08:
        return r.choice(["interface", "foo", "10", "no such text", "a b", "ip  address"])
    l = r.choice(cand).rstrip()
    x = r.random()
    if x < .35:
        return l.strip()
    if x < .5:
        return l
    ws = l.split()
    if x < .85:
        i = r.randint(0, len(ws) - 1)
        return " ".join(ws[i:i + r.choice([1, 1, 2, 3])])
    i = r.randint(0, len(l) - 1)
    return l[i:i + r.randint(1, 6)]


def alternative(r, lines, groups, g0, wantgroups=0):
    f = fragment(r, lines)
    parts = []
    x = r.random()
    if x < .25:
        parts.append(("^", {"k": "^"}))
        if r.random() < .4:
            parts.append(rep(r, ("s", "\\s")))
        f = f.strip() or "a"
    elif x < .32:
        parts.append(("^", {"k": "^"}))
    ws = f.split(" ")
    body = []
    for i, w in enumerate(ws):
        if i:
            body.append(lit(" "))
        if not w:
            continue
        y = r.random()
        if y < .15:
            body.append(rep(r, r.choice([("S", "\\S"), (".", "."), ("w", "\\w")]) if not w.isdigit() else ("d", "\\d"), empty=False))
        elif y < .2 and len(w) > 1:
            k = r.randint(1, len(w) - 1)
            body.append(lit(w[:k]))
            body.append(rep(r))
        elif y < .24 and w.isalnum():
            chs = "".join(dict.fromkeys(w[:3]))
            body.append(("[" + chs + "]", {"k": "r", "cls": "[" + chs, "lo": 1, "hi": 1}))
            body.append(lit(w[1:])) if w[1:] else None
        else:
            body.append(lit(w))
    body = merge(body)
    n = 0
    if wantgroups and r.random() < .2:      # something that may be empty
        c, t = r.choice([("d", "\\d"), ("s", "\\s"), ("w", "\\w")])
        a = (t + "*", {"k": "r", "cls": c, "lo": 0, "hi": -1})
        body.insert(r.randint(0, len(body)), a)
        if r.random() < .5:
            i = body.index(a)
            body[i:i + 1] = [("(", {"k": "("}), a, (")", {"k": ")"})]
            n += 1
    for _ in range(wantgroups - n):
        idx = [i for i, (s, a) in enumerate(body) if a["k"] in "cr"]
        if idx:
            i = r.choice(idx)
            n += 1
            body[i:i + 1] = [("(", {"k": "("}), body[i], (")", {"k": ")"})]
    k = 0
    stack = []
    for i, (s, a) in enumerate(body):
        if a["k"] == "(":
            k += 1
            stack.append(g0 + k)
            body[i] = ("(", {"k": "(", "n": g0 + k})
        elif a["k"] == ")":
            body[i] = (")", {"k": ")", "n": stack.pop()})
    parts += body
    if r.random() < .15:
        parts.append(("$", {"k": "$"}))
    if not parts:
        parts = [lit("a")]
    return parts, n


def pattern(r, lines, alts=True, groups=0, ic=False):
    na = 2 if alts and r.random() < .12 else 1
    out, src, g = [], [], 0
    for _ in range(na):
        p, n = alternative(r, lines, groups, g, groups)
        g += n
        out.append([a for _, a in p])
        src.append("".join(s for s, _ in p))
    s = "|".join(src)
    ic = ic and r.random() < .3
    if ic:
        s = "(?i)" + s
        if r.random() < .5:
            for al in out:
                for a in al:
                    pass
    return {"src": s, "ic": ic, "ng": g, "alts": out}


def number_pattern(r, lines):
    """one group capturing digits"""
    cand = [w for l in lines for w in l.split()]
    pre = r.choice(cand) if cand else "vlan"
    parts = [lit(pre), lit(" ")] if r.random() < .8 else []
    parts = merge(parts) + [("(", {"k": "(", "n": 1}), ("\\d+", {"k": "r", "cls": "d", "lo": 1, "hi": 4 if False else -1}), (")", {"k": ")", "n": 1})]
    return {"src": "".join(s for s, _ in parts), "ic": False, "ng": 1, "alts": [[a for _, a in parts]]}


def literal(s):
    src, a = lit(s)
    return {"src": s, "ic": False, "ng": 0, "alts": [[a]]}
