import re
from impl import kind, edited, enc, NONE


TYPES = {"int": int, "str": str}


def run_query(p, q, pos):
    ids = lambda xs: [-1 if x is None else pos.get(id(x), -2) for x in xs]
    m = q["m"]
    src = q["p"]["src"] if "p" in q else None

    def spec(x, form):
        if form == "obj":
            return next(o for o in p.objs if o.text == x["src"])
        if form == "compiled":
            return re.compile(x["src"])
        return x["src"]
    if m == "find_objects":
        return ids(p.find_objects(spec(q["p"], q.get("form")), exactmatch=q["exact"], ignore_ws=q["ws"]))
    if m in ("find_lines", "find_children", "find_all_children", "find_blocks"):
        return list(getattr(p, m)(src, exactmatch=q["exact"], ignore_ws=q["ws"]))
    if m == "has_line_with":
        return p.has_line_with(src)
    if m == "cl_has_line_with":
        return p.objs.has_line_with(src)
    if m == "find_lineage":
        if not p.find_objects(src, exactmatch=q["exact"]):
            return NONE
        try:
            return list(p.find_lineage(src, exactmatch=q["exact"]))
        except ValueError:
            return {"exc": "ValueError"}
    cs = [x["src"] for x in q.get("cs", [])]
    if m in ("find_parent_objects", "find_parent_objects_wo_child", "find_child_objects"):
        return ids(getattr(p, m)(spec(q["p"], q.get("pform")), spec(q["cs"][0], q.get("cform")), ignore_ws=q["ws"], recurse=q["rec"], escape_chars=q["esc"]))
    if m in ("find_objects_w_child", "find_objects_wo_child"):
        return ids(getattr(p, m)(src, cs[0], ignore_ws=q["ws"], recurse=q["rec"]))
    if m in ("find_parents_w_child", "find_parents_wo_child", "find_children_w_parents"):
        return list(getattr(p, m)(src, cs[0], ignore_ws=q["ws"]))
    if m == "find_objects_w_parents":
        return ids(p.find_objects_w_parents(src, cs[0], ignore_ws=q["ws"]))
    if m == "find_objects_w_all_children":
        return ids(p.find_objects_w_all_children(src, cs, ignore_ws=q["ws"], recurse=q["rec"]))
    if m == "find_objects_w_missing_children":
        return ids(p.find_objects_w_missing_children(src, cs, ignore_ws=q["ws"]))
    if m in ("find_parent_objects_list", "find_child_objects_list"):
        lst = q.get("seq", "list")
        arg = [src] + cs
        return ids(getattr(p, m[:-5])(tuple(arg) if lst == "tuple" else arg, ignore_ws=q["ws"], recurse=q["rec"], escape_chars=q["esc"]))
    if m in ("branches", "branchgroups"):
        kw = {"regex_flags": re.I} if q.get("flag_ic") else {}
        rows = p.find_object_branches(tuple(q["srcs"]), regex_groups=(m == "branchgroups"), **kw)
        return [ids(row) for row in rows] if m == "branches" else [[[enc(g) for g in cell] for cell in row] for row in rows]
    if m == "re_search_children":
        return [ids(o.re_search_children(src, recurse=q["rec"])) for o in p.objs]
    if m == "parse_re_search_children":
        return ids(p.re_search_children(src, recurse=q["rec"]))
    if m == "re_search":
        return [o.re_search(src, default=q["default"]) for o in p.objs]
    if m == "re_match":
        return [enc(o.re_match(src, group=q["group"], default=q["default"])) for o in p.objs]
    if m == "re_match_typed":
        return [enc(o.re_match_typed(src, group=q["group"], result_type=TYPES[q["ty"]], default=q["default"], untyped_default=q["untyped"])) for o in p.objs]
    if m == "re_match_iter_typed":
        return [enc(o.re_match_iter_typed(src, group=q["group"], result_type=TYPES[q["ty"]], default=q["default"], untyped_default=q["untyped"], recurse=q["rec"])) for o in p.objs]
    if m == "parse_re_match_iter_typed":
        return enc(p.re_match_iter_typed(src, group=q["group"], result_type=TYPES[q["ty"]], default=q["default"], untyped_default=q["untyped"]))
    if m == "groupdict":
        gd = {"g%d" % (i + 1): TYPES[t] for i, t in enumerate(q["types"])}
        out = []
        for o in p.objs:
            d = o.re_match_iter_typed(q["named"], groupdict=gd, default=q["default"], recurse=q["rec"])
            out.append([enc(d[k]) for k in gd] + (["extra keys"] if set(d) != set(gd) else []))
        return out
    raise KeyError(m)


@kind("query")
def k_query(case):
    return look(edited(case, lambda p: look(p, case)), case)


def look(p, case):
    pos = {id(o): i for i, o in enumerate(p.objs)}
    obs = []
    for q in case["queries"]:
        try:
            obs.append(run_query(p, q, pos))
        except Exception as e:
            obs.append({"exc": type(e).__name__})
    return {"n": len(p.objs), "obs": obs, "after": list(p.ioscfg)}
