import os, re, shutil, tempfile
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.models_cisco import IOSCfgLine
from impl import kind, parse, proj, enc, NONE, kwargs


def repl_src(repl):
    return "".join(x["s"].replace("\\", "\\\\") if x["k"] == "lit" else "\\g<%d>" % x["n"] for x in repl)


def line_op(op, o):
    m, t = op["m"], op["text"]
    if m == "obj_insert_before":
        return enc(o.insert_before(IOSCfgLine(line=t) if op.get("asobj") else t))
    if m == "obj_insert_after":
        return enc(o.insert_after(IOSCfgLine(line=t) if op.get("asobj") else t))
    if m == "append_to_family":
        return enc(o.append_to_family(t, indent=op["indent"], auto_indent_width=op["width"], auto_indent=op["auto"]))
    if m == "obj_delete":
        return enc(o.delete() if op["recurse"] else o.delete(recurse=False))
    if m == "delete_children_matching":
        return ["~deleted~" if x is True else x.text for x in o.delete_children_matching(op["p"]["src"])]
    if m in ("re_sub", "obj_replace"):
        f = o.re_sub if m == "re_sub" else o.replace
        return enc(f(op["p"]["src"], repl_src(op["repl"]), op["ex"]["src"] if op["hasex"] else None))
    if m == "set_text":
        o.text = t
        return NONE
    raise KeyError(m)


LINEOPS = ("obj_insert_before", "obj_insert_after", "append_to_family", "obj_delete", "delete_children_matching", "re_sub", "obj_replace", "set_text")


def apply(p, op):
    m = op["m"]
    n = len(p.objs)
    at = op["f"] * n // 1000 if n else -1
    src = op["p"]["src"] if "p" in op else None
    if m in ("commit", "atomic"):
        getattr(p, m)()
        return NONE
    if m in ("insert_before", "insert_after"):
        kw = {"exactmatch": op["exact"], "ignore_ws": op["ws"], "atomic": op["atomic"]}
        if op["nvi"] >= 0:
            kw["new_val_indent"] = op["nvi"]
        if op.get("names") == "old":
            return list(getattr(p, m)(exist_val="x", new_val="y", linespec=src, insertstr=op["text"], **kw))
        return list(getattr(p, m)(src, op["text"], **kw))
    if m in ("cl_insert_before", "cl_insert_after"):
        return enc(getattr(p.ConfigObjs, m[3:])(src, op["text"], atomic=op["atomic"]))
    if m == "insert_after_child":
        p.insert_after_child(src, op["c"]["src"], op["text"], exactmatch=op["exact"], excludespec=op["ex"]["src"] if op["hasex"] else None, atomic=op["atomic"])
        return NONE
    if m == "append_line":
        return p.append_line(op["text"]).text
    if m == "prepend_line":
        return p.prepend_line(op["text"]).text
    if m == "cl_insert":
        return enc(p.ConfigObjs.insert(op["i"], op["text"]))
    if m == "delete_lines":
        return enc(p.delete_lines(src, exactmatch=op["exact"], ignore_ws=op["ws"]))
    if m == "replace_lines":
        return enc(p.replace_lines(src, repl_src(op["repl"]), excludespec=op["ex"]["src"] if op["hasex"] else None, exactmatch=op["exact"], atomic=op["atomic"]))
    if m in ("replace_children", "replace_all_children"):
        return enc(getattr(p, m)(src, op["c"]["src"], repl_src(op["repl"]), excludespec=op["ex"]["src"] if op["hasex"] else None, exactmatch=op["exact"], atomic=op["atomic"]))
    if m == "each":
        objs = list(p.find_objects(src))
        for o in reversed(objs) if op["rev"] else objs:
            line_op(op["op"], o)
        return NONE
    if m == "reverse":
        p.ConfigObjs.reverse()
        p.commit()
        return NONE
    if at < 0:
        return NONE
    if m == "pop":
        p.ConfigObjs.pop(at)
        p.commit()
        return NONE
    if m == "remove":
        p.ConfigObjs.remove(p.objs[at])
        p.commit()
        return NONE
    if m == "del":
        del p.ConfigObjs[at]
        return NONE
    if m in LINEOPS:
        return line_op(op, p.objs[at])
    raise KeyError(m)


def commits(op):
    return op["m"] in ("commit", "atomic", "append_line", "pop", "remove", "del", "reverse") or op.get("atomic", False)


def save(p, case, op):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    kw = kwargs(case)
    if kw["syntax"] == "junos":
        kw["syntax"] = "ios"
    try:
        f, g = os.path.join(d, "a"), os.path.join(d, "b")
        p.save_as(f)
        coding = kw.get("encoding") or "utf-8"
        content = open(f, "rb").read().decode(coding)
        q = CiscoConfParse(f, **kw)
        q.save_as(g)
        t = proj(q)
        del t["ioscfg"]
        return {"content": content, "tree": t, "again": open(g, "rb").read().decode(coding)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def swap(v, a, b):
    """v with the letter b for a (the specification speaks ASCII: a letter of the encoding stands behind a rare ASCII one)"""
    if isinstance(v, str):
        return v.replace(a, b)
    if isinstance(v, list):
        return [swap(x, a, b) for x in v]
    if isinstance(v, dict):
        return {k: swap(x, a, b) for k, x in v.items()}
    return v


@kind("edit")
def k_edit(case):
    letter = case.get("letter")
    return swap(edit(swap(case, "`", letter)), letter, "`") if letter else edit(case)


def edit(case):
    p = parse(case)
    out = {"text": list(p.ioscfg), "steps": []}
    for op in case["ops"]:
        ob = {}
        try:
            if op["m"] == "save":
                ob.update(save(p, case, op))
            else:
                ob["ret"] = apply(p, op)
        except Exception as e:
            ob["exc"] = type(e).__name__
        ob["text"] = list(p.ioscfg)
        ob["num"] = [o.linenum for o in p.objs]
        if commits(op) and "exc" not in ob:
            t = proj(p)
            del t["ioscfg"]
            ob["tree"] = t
            o = case["opts"]           # the default mode discards empty lines on input (also those of a banner)
            if case["fresh"] and not (o["ign"] and not o["fac"] and "" in t["text"]):
                f = proj(CiscoConfParse(list(p.ioscfg), **kwargs(case)))
                del f["ioscfg"]
                ob["fresh"] = f
        out["steps"].append(ob)
    return out
