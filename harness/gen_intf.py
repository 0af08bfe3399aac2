PREF = ["Ethernet", "GigabitEthernet", "Eth", "Gi", "Serial", "Port-channel", "Vlan", "Loopback", "Tunnel", "TenGigabitEthernet", "ATM", "", "wlan-ap", "Embedded-Service-Engine", "port-channel", "BVI"]
XPREF = ["GigabitEthernet", "TenGigE", "Bundle-Ether", "MgmtEth", "HundredGigE", "Loopback", "Serial"]
CLS = ["multipoint", "point-to-point", "l2transport"]


def num(r):
    return r.choice([0, 1, 2, 3, 9, 10, 11, 19, 20, 48, 100, 4094, r.randint(0, 5000)])


def comps(r, xr, small=False):
    n = (lambda r: r.choice([0, 1, 2, 10])) if small else num
    if xr:
        k = r.choice([1, 4, 4, 4])
        parts = [str(n(r)) for _ in range(k)]
        if k == 4 and r.random() < .3:
            parts[1] = r.choice(["RP0", "RSP0", "RSP1"])
            parts[2] = r.choice(["CPU0", "CPU1", "0"])
    else:
        parts = [str(n(r)) for _ in range(r.choice([1, 1, 2, 2, 2, 3, 3]))]
    return {"p": r.choice(XPREF if xr else PREF), "parts": parts, "sub": n(r) if r.random() < .4 else -1, "chan": n(r) if r.random() < .2 else -1,
            "cls": r.choice(CLS[1:] if xr else CLS[:2]) if r.random() < .15 else ""}


def show(r, c, plain=False):
    parts = [("0" + p if p.isdigit() and not plain and r.random() < .03 else p) for p in c["parts"]]
    s = c["p"] + ("" if plain or r.random() < .8 else " ") + "/".join(parts)
    if c["sub"] >= 0:
        s += ".%d" % c["sub"]
    if c["chan"] >= 0:
        s += ":%d" % c["chan"]
    if c["cls"]:
        s += (" " if plain else r.choice([" ", " ", "  "])) + c["cls"]
    return s if plain or r.random() < .95 else " " + s + " "


def sets(r, xr):
    out = []
    for _ in range(r.randint(0, 4)):
        at = r.choice(["port", "port", "slot", "card", "subinterface", "channel", "interface_class", "prefix"] if not xr else ["port", "subinterface", "channel", "prefix", "interface_class"])
        a = {"at": at, "n": num(r), "s": ""}
        if at in ("subinterface", "channel") and r.random() < .3:
            a["n"] = -1
        if at == "interface_class":
            a["s"] = r.choice((CLS if xr else CLS[:2]) + [""])
        if at == "prefix":
            a["s"] = r.choice(XPREF if xr else PREF[:5])
        out.append(a)
    return out


def variant(r, c, xr):
    d = dict(c, parts=list(c["parts"]))
    k = r.random()
    if k < .35:
        i = r.randrange(len(d["parts"]))
        if d["parts"][i].isdigit():
            d["parts"][i] = str(r.choice([0, 1, 2, 9, 10, 11, 100]))
    elif k < .5:
        d["sub"] = r.choice([-1, 0, 1, 2, 10])
    elif k < .6:
        d["chan"] = r.choice([-1, 0, 1, 10])
    elif k < .65:
        d["cls"] = r.choice(["", "multipoint", "point-to-point"])
    elif k < .75:
        d["parts"] = comps(r, xr, True)["parts"]
    elif k < .8:
        d["p"] = r.choice(XPREF if xr else PREF)
    return d


# ------------------------------------------------------------------ ranges
def numset_text(r, hi=60):
    """pieces of a range expression over numbers"""
    ps = []
    for _ in range(r.choice([1, 1, 2, 3, 4, 5])):
        a = r.choice([r.randint(0, 12), r.randint(0, hi), r.randint(0, 12), r.choice([100, 1000, 4000])])
        if r.random() < .5:
            b = a + r.choice([1, 1, 2, 2, 3, 5, 9])
            ps.append((a, b))
        else:
            ps.append((a, None))
    return ps


def piece(r, a, b, plain=False):
    sp = "" if plain or r.random() < .9 else " "
    return str(a) if b is None else f"{a}{sp}-{sp}{b}"


def range_case(r):
    ints = r.random() < .5
    ps = numset_text(r)
    xr = not ints and r.random() < .3
    case = {"kind": "range", "ints": ints, "xr": xr, "ops": []}
    if ints:
        case["text"] = ",".join((" " if r.random() < .1 else "") + piece(r, a, b) + (" " if r.random() < .1 else "") for a, b in ps)
        case["rt"] = "int"
        if r.random() < .05:
            case["text"] = ""
            ps = []
    else:
        c = comps(r, xr)
        c["cls"] = r.choice(CLS[:2]) if r.random() < .1 else ""
        vary = "channel" if c["chan"] >= 0 else "subinterface" if c["sub"] >= 0 else "port"
        first = dict(c, cls="", parts=list(c["parts"]))

        def name(n):
            d = dict(first, parts=list(first["parts"]))
            if vary == "channel":
                d["chan"] = n
            elif vary == "subinterface":
                d["sub"] = n
            else:
                d["parts"][-1] = str(n)
            return show(r, d, True)
        texts = []
        for i, (a, b) in enumerate(ps):
            full = i == 0 or (r.random() < .15)
            lo = name(a) if full else str(a)
            texts.append(lo if b is None else f"{lo}-{b}")
        case["text"] = ",".join(texts) + (" " + c["cls"] if c["cls"] else "")
        case["first"] = name(ps[0][0]) + (" " + c["cls"] if c["cls"] else "")
        case["vary"] = vary
        case["rt"] = "cls" if xr else r.choice(["none", "none", "str", "cls"])
    members = sorted({x for a, b in ps for x in range(a, (a if b is None else b) + 1)})
    for _ in range(r.randint(1, 5)):
        op = r.choice(["append", "remove", "add", "sub", "del", "in", "in", "append", "remove"])
        n = r.choice(members) if members and r.random() < .5 else r.choice([0, 1, 2, 5, 11, 13, 50, 101, 4094])
        if op == "del":
            n = r.randint(0, max(0, len(members)))
        case["ops"].append({"op": op, "n": n, "quiet": r.random() < .3,
                            "ns": sorted({(r.choice(members) if members and r.random() < .5 else r.randint(0, 30)) for _ in range(r.randint(1, 4))})})
    return case
