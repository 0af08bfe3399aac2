import copy
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ciscoconfparse import CFGLINE, ConfigList
from impl import kind, parse, proj, enc, NONE, kwargs

READS = ("slice", "copy", "add", "radd", "mul")


class Seen:
    """Numbers for line objects, in order of appearance."""
    def __init__(self, objs):
        self.known = list(objs)

    def of(self, o):
        for k, x in enumerate(self.known):
            if x is o:
                return k + 1
        self.known.append(o)
        return len(self.known)


def cut(op):
    f = lambda z: z["v"] if z["h"] else None
    return slice(f(op["a"]), f(op["b"]), op["s"])


def fresh(p, case, seen, op):
    """new line objects, as a list or as the line list of another configuration"""
    if op.get("other"):
        new = CiscoConfParse(list(op["ts"]), **dict(kwargs(case), ignore_blank_lines=False)).ConfigObjs
    else:
        new = [CFGLINE[case["kw"]["syntax"]](line=t, comment_delimiter=case["kw"]["comment"]) for t in op["ts"]]
    for o in new:
        seen.of(o)
        o.linenum = -1
    return new


def apply(p, case, op, seen, ob):
    c, m = p.ConfigObjs, op["m"]
    ids = lambda z: [seen.of(o) for o in z]
    if m == "commit":
        p.commit()
    elif m == "get":
        return ids([c[op["i"]]])
    elif m in READS:
        if m == "slice":
            z = c[cut(op)]
        elif m == "copy":
            z = copy.copy(c) if op["mod"] else c.copy()
        elif m == "mul":
            z = c * op["i"] if op["mod"] else op["i"] * c
        else:
            new = fresh(p, case, seen, op)
            z = c + new if m == "add" else new + c
        ob["kind"] = type(z).__name__
        out = ids(z)
        if len(z):              # the result is a list of its own
            z.pop()
            z.reverse()
            z.clear()
        return out
    elif m == "iter":
        return ids(o for o in c)
    elif m == "reversed":
        return ids(reversed(c))
    elif m == "len":
        return [len(c), c.last_index]
    elif m == "with_comments":
        return ids(c.iter_with_comments(op["i"]) if op["i"] else c.iter_with_comments())
    elif m == "no_comments":
        return ids(c.iter_no_comments(op["i"]) if op["i"] else c.iter_no_comments())
    elif m in ("count", "in", "index", "remove"):
        if not -len(c) <= op["i"] < len(c):
            return NONE
        x = list(c)[op["i"]]
        if m == "count":
            return c.count(x)
        if m == "in":
            return x in c
        if m == "index":
            return c.index(x) if (op["lo"], op["hi"]) == (0, 999) else c.index(x, op["lo"], op["hi"])
        return enc(c.remove(x))
    elif m == "tops":
        a, b = c.config_hierarchy()
        return [ids(a), ids(b), ids(c.all_parents)]
    elif m == "pop":
        return ids([c.pop() if op["i"] == -1 and op["mod"] else c.pop(op["i"])])
    elif m == "del":
        del c[op["i"]]
    elif m == "delslice":
        del c[cut(op)]
    elif m == "set":
        c[op["i"]] = fresh(p, case, seen, op)[0]
    elif m == "move":
        c[op["i"]] = c[op["j"]]
    elif m == "append":
        for o in fresh(p, case, seen, op):
            c.append(o)
    elif m == "extend":
        c.extend(fresh(p, case, seen, op))
    elif m == "iadd":
        c += fresh(p, case, seen, op)
    elif m == "imul":
        c *= op["i"]
    elif m == "insert":
        c.insert(op["i"], op["text"])
    elif m == "reverse":
        c.reverse()
    elif m == "sort":
        kw = {"key": lambda o: len(o.text)} if op["key"] == "len" else {}
        if op["rev"]:
            kw["reverse"] = True
        c.sort(**kw)
    elif m == "clear":
        c.clear()
    else:
        raise KeyError(m)
    return NONE


@kind("list")
def k_list(case):
    p = parse(case)
    seen = Seen(p.objs)
    out = {"text": list(p.ioscfg), "steps": []}
    for op in case["ops"]:
        ob = {"exc": NONE}
        try:
            ob["ret"] = apply(p, case, op, seen, ob)
        except Exception as e:
            ob["exc"] = type(e).__name__
        if op["m"] in ("commit", "del", "delslice") and ob["exc"] == NONE:
            ob["tree"] = proj(p)
            seen = Seen(p.objs)
        ob["text"] = list(p.ioscfg)
        ob["ids"] = [seen.of(o) for o in p.ConfigObjs]
        out["steps"].append(ob)
    return out
