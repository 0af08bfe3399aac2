"""IP address notations."""

EDGE = [0, 0, 0, 1, 2, 3, 127, 128, 192, 254, 255, 255, 10, 172, 224, 240, 16, 31]


NET4 = [(0x0a000000, 8), (0xac100000, 12), (0xc0a80000, 16), (0x7f000000, 8), (0xa9fe0000, 16), (0xe0000000, 4), (0xf0000000, 4), (0x64400000, 10), (0x08000000, 7)]
NET6 = [(0xff << 120, 8), (0xfe80 << 112, 10), (0xfec0 << 112, 10), (0xfc << 120, 7), (0x20010db8 << 96, 32), (0xffff << 32, 96), (0x2001 << 112, 32), (0x2002 << 112, 16),
        (0, 8), (1 << 120, 8), (1 << 122, 6), (1 << 125, 3), (1 << 127, 2), (0, 128), (0xe << 124, 4), (0xf8 << 120, 5), (0xfe << 120, 9), (0x2600 << 112, 12)]


def edge(r, nets, w):
    """an address at, or one step or one bit beside, the edge of a well-known network"""
    a, p = r.choice(nets)
    size = 1 << (w - p)
    n = r.choice([a, a - 1, a + 1, a + size - 1, a + size, a + size - 2, (a | r.getrandbits(w - p) if p < w else a) ^ (1 << r.randint(max(0, w - p), w - 1)), a | (r.getrandbits(w - p) if p < w else 0)])
    return list((n % (1 << w)).to_bytes(w // 8, "big"))


def v4bytes(r):
    if r.random() < .2:
        return edge(r, NET4, 32)
    if r.random() < .3:
        base = r.choice([[10, 0, 0, 0], [172, 16, 5, 0], [192, 168, 1, 255], [224, 0, 0, 5], [255, 255, 255, 255], [0, 0, 0, 0], [127, 0, 0, 1],
                         [169, 254, 1, 1], [240, 0, 0, 1], [172, 31, 255, 254], [8, 8, 8, 8], [100, 64, 0, 1]])
        b = list(base)
        b[3] = r.choice([b[3], r.randrange(256)])
        return b
    return [r.choice(EDGE) if r.random() < .5 else r.randrange(256) for _ in range(4)]


def plen(r, w):
    return r.choice([0, 1, w - 3, w - 2, w - 1, w, w // 2, r.randint(0, w), r.randint(0, w), r.choice([8 * i for i in range(w // 8 + 1)]) + 0])


def mask(p, w=32):
    v = ((1 << w) - 1) ^ ((1 << (w - p)) - 1)
    return ".".join(str(v >> s & 255) for s in (24, 16, 8, 0))


def wild(p):
    v = (1 << (32 - p)) - 1
    return ".".join(str(v >> s & 255) for s in (24, 16, 8, 0))


def v4text(r, b=None, p=None):
    b = b or v4bytes(r)
    p = plen(r, 32) if p is None else p
    a = ".".join(map(str, b))
    k = r.random()
    if k < .15:
        return a
    if k < .5:
        s = f"{a}/{p}"
    elif k < .65:
        s = f"{a}/{mask(p)}"
    elif k < .95:
        s = f"{a}{r.choice([' ', ' ', '  ', chr(9)])}{mask(p)}"
    else:
        s = f"{a}{r.choice(['/', ' '])}{wild(p)}"
    if r.random() < .1:
        s = r.choice([" ", ""]) + s + r.choice([" ", ""])
    return s


BAD4 = ["", "1.1.1", "1.1.1.1.1", "1.1.1.256", "256.1.1.1", "1.1.1.1/33", "1.1.1.1/-1", "1.1.1.1 255.0.255.0", "1.1.1.1/255.255.255.1", "a.b.c.d", "1.1.1.1/", "1.1.1.1/a",
        "1.1.1.1 255.255.255.256", "1.1.1.1/24/24", "1.1.1.1 24 24", "1..1.1", "1.1.1.1 0.255.0.0", "1.1.1.1/255.255", "::1", "1.1.1.1,2.2.2.2", "1.1.1.1 /24 x", "x1.1.1.1",
        "1.1.1.1x", "1.1.1.1 255.255.255.0 x", "1.1.1.1/24x", "1.1.1.1 mask 255.0.0.0", "-1.1.1.1", "1.1.1.1/0.0.255.0", "1.1.1.999/24", "1.1.1.1/300", "1.1.1.1 254.255.255.0"]


def v6bytes(r):
    k = r.random()
    if r.random() < .3:
        return edge(r, NET6, 128)
    if k < .1:
        return [0] * 10 + [255, 255] + v4bytes(r)
    pre = r.choice([[0xfe, 0x80], [0xff, 2], [0x20, 1, 0xd, 0xb8], [0xfc, 0], [0, 0], [0xfe, 0xc0], [0x20, 2], [0xff, 0xff], [], [], [0, 0x64, 0xff, 0x9b], [0xfd, 0x12], [0x26, 0x07]])
    b = list(pre)
    while len(b) < 16:
        c = r.random()
        b += [0, 0] if c < .55 else [0, r.choice(EDGE)] if c < .75 else [r.randrange(256), r.randrange(256)] if c < .93 else [255, 255]
    b = b[:16]
    if r.random() < .05:
        b = [0] * 16
    if r.random() < .05:
        b = [255] * 16
    return b


def v6addr(r, b=None):
    b = b or v6bytes(r)
    g = [b[2 * i] * 256 + b[2 * i + 1] for i in range(8)]
    four = r.random() < .15
    n = 6 if four else 8
    ts = []
    style = r.choice(["short", "short", "full", "mixed"])
    for x in g[:n]:
        ts.append("%04x" % x if style == "full" else "%x" % x if style == "short" else r.choice(["%x", "%02x", "%03x", "%04x"]) % x)
    runs = [(i, j) for i in range(n) for j in range(i, n) if all(x == 0 for x in g[i:j + 1])]
    tail = (".".join(map(str, b[12:])),) if four else ()
    if runs and r.random() < .8:
        i, j = max(runs, key=lambda q: q[1] - q[0]) if r.random() < .6 else r.choice(runs)
        s = ":".join(ts[:i]) + "::" + ":".join(ts[j + 1:] + list(tail))
    else:
        s = ":".join(ts + list(tail))
    k = r.random()
    if k < .25:
        s = s.upper()
    elif k < .35:
        s = "".join(r.choice([c, c.upper()]) for c in s)
    return s


def v6text(r, b=None, p=None):
    a = v6addr(r, b)
    p = plen(r, 128) if p is None else p
    k = r.random()
    if k < .15:
        return a
    return f"{a}/{p}" if k < .9 else f"{a} {p}"


BAD6 = ["1::2::3", ":::", "12345::1", "1:2:3:4:5:6:7:8:9", "g::1", "::1/129", "1.2.3.4", "1:2:3:4:5:6:7", "::1/", "::1/x", "1::2/64/64", ":1", "1:", "::1.2.3", "::1.2.3.400", "::1.2.3.4.5",
        "1:2:3:4:5:6:7::8:9", "zz::1", "::1x", "::1 64 64", "", "fe80:::1", "::-1", "1.2.3.4::", "1:2:3:4:5:6:7:1.2.3.4", "::/-1", "2001:db8::1,2", "::1/64x", "x::1/64", "1::/1.1.1.1",
        "2001:db8::10000", "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8", "fe80::1::", "1.2.3.4:1::", "::1.2.3.4:5", "2001:db8:1"]


def mutate(r, s):
    """a text that is often, but not always, malformed; the specification decides"""
    s = list(s)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(s) + 1)
        k = r.random()
        ch = r.choice("0123456789abfF:::...//gz ")
        if k < .4 and s:
            del s[min(i, len(s) - 1)]
        elif k < .75:
            s.insert(i, ch)
        elif s:
            s[min(i, len(s) - 1)] = ch
    return "".join(s)


def text(r, v):
    return v4text(r) if v == 4 else v6text(r)


def inp(r, v, bad=.0):
    k = r.random()
    w = 32 if v == 4 else 128
    if k < bad:
        s = r.choice(BAD4 if v == 4 else BAD6) if r.random() < .5 else mutate(r, text(r, v))
        return {"v": v, "k": "str", "s": s, "neg": False}
    if k < bad + .12:
        n = r.choice([0, 1, 2 ** w - 1, 2 ** w, r.getrandbits(w), r.getrandbits(w), 2 ** (w // 2)])
        return {"v": v, "k": "int", "s": str(n), "neg": r.random() < .05}
    return {"v": v, "k": "obj" if r.random() < .1 else "str", "s": text(r, v), "neg": False}


def number(r, w):
    if r.random() < .4:       # about a power of two: the size of a network
        return str(max(0, 2 ** r.randint(0, w) + r.choice([-2, -1, -1, 0, 0, 1])))
    return str(r.choice([0, 1, 2, 3, 5, 127, 254, 255, 256, 65535, 2 ** (w // 2), 2 ** w - 1, 2 ** w - 2, r.getrandbits(r.randint(1, w)), r.getrandbits(r.randint(1, w + 1))]))


def op(r, v):
    w = 32 if v == 4 else 128
    k = r.choice(["plus", "minus", "offset", "offset", "plen", "plen"])
    if k == "plen":
        return {"op": r.choice(["prefixlen", "masklen", "masklength", "prefixlength"]), "n": str(r.choice([plen(r, w), plen(r, w), plen(r, w), w + 1, 999])), "neg": False}
    return {"op": k, "n": number(r, w), "neg": r.random() < .12}


def ip_case(r, v, bad=.25):
    return {"kind": "ip", "x": inp(r, v, bad), "ops": [op(r, v) for _ in range(r.randint(2, 5))]}


def factory_case(r):
    v = r.choice([4, 6])
    while True:
        s = inp(r, v, .2)["s"]
        if not any(c.isspace() for c in s):
            break
    return {"kind": "ipfactory", "s": s, "stdlib": r.random() < .5, "mode": r.choice(["auto_detect", "auto_detect", "ipv4", "ipv6"])}


# ---------------------------------------------------------------- small universes inside the real address space
def embed(v, shift, width, val, p, fill):
    """an address whose bits shift..shift+width-1 (from the left) are val; p prefix bits inside the window"""
    w = 32 if v == 4 else 128
    low = w - shift - width
    a = (fill >> (w - shift) << (w - shift)) | (val << low) | (fill & ((1 << low) - 1))
    return a, shift + p


def show(v, a, p):
    import ipaddress
    return str((ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address)(a)) + "/" + str(p)


def S(v, s):
    return {"v": v, "k": "str", "s": s, "neg": False}


def near(r, v):
    """a cluster of related addresses"""
    w = 32 if v == 4 else 128
    base = r.getrandbits(w) if r.random() < .7 else r.choice([0, 2 ** w - 1])
    p0 = r.randint(0, w)
    out = []
    for _ in range(r.randint(2, 7)):
        p = max(0, min(w, p0 + r.randint(-2, 3)))
        a = base ^ (r.getrandbits(4) << max(0, w - p0 - r.randint(0, 3)) & (2 ** w - 1))
        if r.random() < .2:
            a = base
        out.append(S(v, show(v, a, p)))
    return out
