"""Observations of IPv4Obj / IPv6Obj."""
from impl import kind
from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, collapse_addresses, ip_factory

EXC = "~exception~"
STRINGS = ("ip", "netmask", "network", "hostmask", "inverse_netmask", "as_hex", "as_cidr_addr", "as_cidr_net", "ipv4", "ipv6", "exploded",
           "broadcast", "as_zeropadded", "as_zeropadded_network", "compressed")
SMALL = ("masklen", "masklength", "prefixlen", "prefixlength", "version")
BIG = ("numhosts", "as_decimal", "as_int", "as_decimal_network", "network_offset", "max_int", "as_decimal_broadcast", "as_decimal_network_maxint")
BOOLS = ("is_multicast", "is_reserved", "is_private", "is_link_local", "is_site_local", "is_unspecified", "is_ipv4_mapped")
TUPLES = ("as_binary_tuple", "as_hex_tuple")
V4 = {"ipv4", "broadcast", "as_decimal_broadcast", "as_zeropadded", "as_zeropadded_network"}
V6 = {"ipv6", "compressed", "as_decimal_network_maxint", "is_link_local", "is_site_local", "is_unspecified", "is_ipv4_mapped"}


def make(x):
    cls = IPv4Obj if x["v"] == 4 else IPv6Obj
    if x["k"] == "int":
        n = int(x["s"])
        return cls(-n if x["neg"] else n)
    if x["k"] == "obj":
        return cls(cls(x["s"]))
    return cls(x["s"])


def facts(o):
    v4 = isinstance(o, IPv4Obj)

    def get(name):
        try:
            val = getattr(o, name)
            return val() if callable(val) else val
        except Exception:
            return EXC
    f = {}
    for names, enc in ((STRINGS, str), (SMALL, lambda v: v), (BIG, lambda v: str(v)), (BOOLS, lambda v: v), (TUPLES, list)):
        for n in names:
            if n in (V6 if v4 else V4):
                continue
            val = get(n)
            f[n] = val if val is EXC else enc(val)
    if not v4:
        for n in ("teredo", "sixtofour"):
            val = get(n)
            f[n] = val if val is EXC else [] if val is None else [str(a) for a in val] if n == "teredo" else [str(val)]
    f["packed"] = list(o.packed)
    f["int"] = str(int(o))
    f["first"] = str(next(iter(o)))
    f["iterated"] = [str(a) for a in o] if o.prefixlen >= (29 if v4 else 125) else []
    f["repr"] = repr(o)
    return f


def cidr(o):
    return o.as_cidr_addr


@kind("ip")
def k_ip(case):
    try:
        o = make(case["x"])
    except Exception:
        return {"exc": EXC}
    f, back = facts(o), forms(o)
    obs = []
    for op in case["ops"]:
        n = -int(op["n"]) if op["neg"] else int(op["n"])
        before = cidr(o)
        try:
            kept = True
            if op["op"] in ("plus", "minus"):
                new = o + n if op["op"] == "plus" else o - n
                kept = cidr(o) == before
                o = new
            elif op["op"] == "offset":
                o.network_offset = n
            else:
                setattr(o, op["op"], n)
            obs.append({"r": cidr(o), "net": o.as_cidr_net, "kept": kept})
        except Exception:
            obs.append({"r": EXC, "net": "", "kept": cidr(o) == before})
    return {"exc": "", "facts": f, "back": back, "ops": obs, "final": facts(o), "finalback": forms(o)}


def forms(o):
    cls, back = type(o), {}
    for name, txt in (("addr", o.as_cidr_addr), ("repr", repr(o).strip("<>").split(" ", 1)[1])):
        try:
            back[name] = cls(txt) == o
        except Exception:
            back[name] = EXC
    back["hash"] = hash(cls(o.as_cidr_addr)) == hash(o)
    back["copy"] = cls(o) == o and cls(o).as_cidr_addr == o.as_cidr_addr
    return back


@kind("ippair")
def k_pair(case):
    x, y = make(case["x"]), make(case["y"])
    out = {"eq": x == y, "ne": x != y}
    if type(x) is type(y):
        out.update(lt=x < y, gt=x > y, xiny=x in y, yinx=y in x, hash=hash(x) == hash(y))
    return out


@kind("ipcollapse")
def k_collapse(case):
    objs = [make(x) for x in case["xs"]]
    if case["net"]:
        objs = [o.network for o in objs]
    if case["tup"]:
        objs = tuple(objs)
    return [str(n) for n in collapse_addresses(objs)]


@kind("ipsort")
def k_sort(case):
    objs = [make(x) for x in case["xs"]]
    return {"asc": [cidr(o) for o in sorted(objs)], "desc": [cidr(o) for o in sorted(objs, reverse=True)]}


@kind("ipfactory")
def k_factory(case):
    try:
        o = ip_factory(case["s"], stdlib=case["stdlib"], mode=case["mode"])
    except Exception:
        return {"cls": EXC, "txt": ""}
    return {"cls": type(o).__name__, "txt": o.as_cidr_addr if type(o).__name__.endswith("Obj") else str(o)}
