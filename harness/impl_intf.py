"""Observations of interface names and Cisco ranges."""
import copy
from impl import kind, NONE
from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoIOSXRInterface, CiscoRange

EXC = "~exception~"


def opt(v):
    return NONE if v is None else str(v)


def cls_of(case):
    return CiscoIOSXRInterface if case["xr"] else CiscoIOSInterface


def snap(o, xr):
    cls = type(o)

    def ok(f):
        try:
            return bool(f())
        except Exception:
            return EXC

    def val(f):
        try:
            return f()
        except Exception:
            return EXC
    return {
        "comps": [str(o.prefix), opt(o.slot), opt(o.card), opt(o.processor) if xr else NONE, opt(o.port), opt(o.subinterface), opt(o.channel), opt(o.interface_class)],
        "sep": opt(o.digit_separator), "str": str(o), "name": val(lambda: o.name), "number": val(lambda: str(o.number)), "repr": repr(o),
        "tail": "" if xr else val(lambda: o.slot_card_port_subinterface_channel),
        "again": [ok(lambda: cls(str(o)) == o), ok(lambda: cls(interface_dict=o.as_dict()) == o), ok(lambda: o.from_dict(o.as_dict()) == o),
                  ok(lambda: hash(cls(str(o))) == hash(o)), ok(lambda: hash(cls(interface_dict=o.as_dict())) == hash(o)),
                  ok(lambda: str(cls(interface_dict=o.as_dict())) == str(o)), ok(lambda: str(o.from_dict(o.as_dict())) == str(o))],
    }


@kind("intf")
def k_intf(case):
    try:
        o = cls_of(case)(case["name"])
    except Exception as e:
        return {"exc": type(e).__name__}
    out = {"exc": "", "snap": snap(o, case["xr"]), "sets": []}
    for a in case["sets"]:
        try:
            if a["at"] == "interface_class":
                o.interface_class = a["s"] or None
            elif a["at"] == "prefix":
                o.prefix = a["s"]
            elif a["at"] in ("slot", "card") and getattr(o, a["at"]) is None:
                pass
            else:
                setattr(o, a["at"], None if a["n"] < 0 else a["n"])
            out["sets"].append(snap(o, case["xr"]))
        except Exception as e:
            return {"exc": type(e).__name__}
    return out


@kind("intfpair")
def k_pair(case):
    try:
        x, y = cls_of(case)(case["x"]), cls_of(case)(case["y"])
        return {"exc": "", "eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "hash": hash(x) == hash(y)}
    except Exception as e:
        return {"exc": type(e).__name__}


@kind("intfsort")
def k_sort(case):
    try:
        return {"xs": [str(o) for o in sorted(cls_of(case)(x) for x in case["xs"])]}
    except Exception as e:
        return {"xs": type(e).__name__}


def rsnap(r, ints, xr):
    try:
        strs = [str(m) for m in r]
        auto = r.as_list()
        aset = r.as_set()
        compressed = r.as_compressed_str()
        rt = int if ints else CiscoIOSXRInterface if xr else None
        again = [str(m) for m in CiscoRange(compressed, result_type=rt)] == strs if strs else compressed == ""
        key = (lambda m: m) if ints else (lambda m: [-1 if v is None else int(v) if str(v).isdigit() else -1 for v in (m.slot, m.card, m.port, m.subinterface, m.channel)])
        out = {"exc": "", "iter": [str(m) for m in r], "len": len(r), "strs": r.as_list(result_type=str),
               "strset": [s for s in strs if s in r.as_set(result_type=str)] if len(r.as_set(result_type=str)) == len(strs) else EXC,
               "auto": [str(m) for m in auto], "autoset": [str(m) for m in sorted(aset, key=key)] if isinstance(aset, (set, frozenset)) else EXC,
               "compressed": compressed, "again": again, "indexed": [str(r[i]) for i in range(len(strs))]}
        if [str(m) for m in r] != strs or len(r) != len(strs):
            out["iter"] = EXC
        return out
    except Exception as e:
        return {"exc": type(e).__name__}


def member(case, n):
    """a member with number n"""
    if case["ints"]:
        return n
    o = cls_of(case)(case["first"])
    setattr(o, case["vary"], n)
    return o


@kind("range")
def k_range(case):
    ints = case["ints"]
    rt = int if ints else None

    def build(ns):
        if ints:
            return CiscoRange(",".join(map(str, ns)), result_type=int)
        o = CiscoRange(result_type=None)
        o._list = [member(case, n) for n in sorted(set(ns))]
        return o
    try:
        r = CiscoRange(case["text"], result_type={"int": int, "none": None, "str": str, "cls": cls_of(case)}[case["rt"]])
    except Exception as e:
        return {"exc": type(e).__name__}
    out = {"exc": "", "snap": rsnap(r, ints, case["xr"]), "ops": []}
    for op in case["ops"]:
        res = {"ok": True, "member": False, "other": True}
        try:
            if op["op"] in ("append", "remove"):
                m = member(case, op["n"])
                getattr(r, op["op"])(m, ignore_errors=op["quiet"])
            elif op["op"] in ("add", "sub"):
                other = build(op["ns"])
                before = [str(m) for m in other]
                r = r + other if op["op"] == "add" else r - other
                res["other"] = [str(m) for m in other] == before
            elif op["op"] == "del":
                del r[op["n"]]
            elif op["op"] == "in":
                res["member"] = member(case, op["n"]) in r
        except Exception:
            res["ok"] = False
        res["snap"] = rsnap(r, ints, case["xr"])
        out["ops"].append(res)
    return out


@kind("rangeeq")
def k_rangeeq(case):
    rt = int if case["ints"] else cls_of(case)
    try:
        x, y = CiscoRange(case["x"], result_type=rt), CiscoRange(case["y"], result_type=rt)
        return {"exc": "", "eq": x == y, "ne": x != y, "hash": hash(x) == hash(y)}
    except Exception as e:
        return {"exc": type(e).__name__}
