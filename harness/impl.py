"""Observations of the real code.  Only the public API is used."""
import json, os, re, sys, tempfile

import ciscoconfparse
from ciscoconfparse import CiscoConfParse
from loguru import logger
logger.remove()

KINDS = {}
NONE = "~None~"


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


def observe(case):
    return KINDS[case["kind"]](case)


def guard(f, *a, **k):
    """value, or the name of the exception"""
    try:
        return f(*a, **k)
    except Exception as e:
        return {"exc": type(e).__name__}


def enc(v):
    """JSON-safe encoding: None and big numbers become strings, unknown objects their type."""
    if v is None:
        return NONE
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, int):
        return v if abs(v) < 2 ** 31 else "int:%d" % v
    if isinstance(v, float):
        return "float:%r" % v
    if isinstance(v, dict):
        if set(v) == {"exc"}:
            return v
        return {"dict": [[enc(a), enc(b)] for a, b in v.items()]}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((enc(x) for x in v), key=repr)
    return "obj:" + type(v).__name__


# ------------------------------------------------------------------ parsing
def kwargs(case):
    k = dict(case.get("kw", {}))
    return k


def parse(case):
    lines = case["lines"]
    kw = kwargs(case)
    if case.get("via") == "file":
        fd, p = tempfile.mkstemp(dir=os.environ["VERIF_SCRATCH"])
        with os.fdopen(fd, "wb") as fh:
            fh.write(case["content"].encode(kw.get("encoding") or "utf-8"))
        try:
            if case.get("pathtype") == "pathlib":
                import pathlib
                p = pathlib.Path(p)
            return CiscoConfParse(p, **kw)
        finally:
            os.unlink(p)
    if case.get("via") == "tuple":
        lines = tuple(lines)
    else:
        lines = list(lines)
    return CiscoConfParse(lines, **kw)


def edited(case, look):
    """The configuration case["lines"], reached by editing another one which was looked at before (so that nothing
    remembered from then shows up later).  Where edits do not lead there - not the matter here - it is parsed afresh."""
    if not case.get("edits"):
        return parse(case)
    fresh = parse(case)
    try:
        p = CiscoConfParse(list(case["before"]), **kwargs(case))
        if [o.text for o in p.objs] != [l.rstrip() for l in case["before"]]:
            return fresh
        look(p)
    except Exception:
        return fresh
    try:
        for how, k, text in case["edits"]:
            o = p.objs[k] if k < len(p.objs) else None
            if how == "ins":
                p.objs.insert(k, text)
            elif how == "del":
                del p.objs[k]
            elif how == "set":
                o.text = text
            elif how == "sub":
                o.re_sub(r"^.*$", text.replace("\\", "\\\\"))
            if case.get("each"):
                p.commit()
                guard(look, p)
        p.commit()
        return p if list(p.ioscfg) == list(fresh.ioscfg) else fresh
    except Exception:
        return fresh


def proj(p):
    """The tree as the API shows it; lines are positions in the object list."""
    objs = list(p.objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    return {
        "text": [o.text for o in objs],
        "ioscfg": list(p.ioscfg),
        "num": [o.linenum for o in objs],
        "ind": [o.indent for o in objs],
        "com": [bool(o.is_comment) for o in objs],
        "par": [pos.get(id(o.parent), -1) for o in objs],
        "kids": [[pos.get(id(c), -1) for c in o.children] for o in objs],
    }


@kind("tree")
def k_tree(case):
    return guard(lambda: proj(parse(case)))


import glob
import importlib
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "impl_*.py"))):
    importlib.import_module(os.path.basename(_f)[:-3])
