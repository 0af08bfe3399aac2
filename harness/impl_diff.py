"""Observations of HDiff, sync_diff and req_cfgspec_all_diff."""
import os, tempfile, warnings
from impl import kind
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ciscoconfparse import HDiff

warnings.simplefilter("ignore")
WORD = {("before", "keep"): "keep", ("before", "remove"): "remove", ("after", "add"): "add"}


def form(lines, via, syn):
    if via == "tuple":
        return tuple(lines), None
    if via == "parse":
        return CiscoConfParse(list(lines), syntax=syn), None
    if via == "file":
        fd, p = tempfile.mkstemp(dir=os.environ["VERIF_SCRATCH"])
        with os.fdopen(fd, "w") as fh:
            fh.write("".join(l + "\n" for l in lines))
        return p, p
    return list(lines), None


def text_of(x):
    return list(x.ioscfg) if isinstance(x, CiscoConfParse) else list(x)


@kind("hdiff")
def k_hdiff(case):
    tmp = []
    try:
        a, p = form(case["a"], case["via"][0], case["syn"])
        tmp.append(p)
        b, p = form(case["b"], case["via"][1], case["syn"])
        tmp.append(p)
        before = [text_of(a), text_of(b)]
        d = HDiff(a, b, syntax=case["syn"])
        rows = [[WORD.get((x["diff_side"], x["diff_word"]), x["diff_side"] + x["diff_word"]), x["indent"], list(x["parents"]), x["text"]] for x in d.all_output_dicts]
        return {"exc": "", "unified": d.unified_diffs(header=False), "headed": d.unified_diffs(header=True)[3:], "rows": rows,
                "intact": [text_of(a), text_of(b)] == before}
    except Exception as e:
        return {"exc": type(e).__name__}
    finally:
        for p in tmp:
            if p:
                os.unlink(p)


@kind("sync")
def k_sync(case):
    try:
        p = CiscoConfParse(list(case["a"]), syntax=case["syn"])
        before = list(p.ioscfg)
        b = tuple(case["b"]) if case["via"] == "tuple" else list(case["b"])
        kw = {} if case["remove"] and case["default"] else {"remove_lines": case["remove"]}
        out = p.sync_diff(b, case["lp"]["src"], case["up"]["src"], **kw)
        return {"exc": "", "cmds": list(out), "intact": list(p.ioscfg) == before and list(b) == case["b"]}
    except Exception as e:
        return {"exc": type(e).__name__}


@kind("alldiff")
def k_all(case):
    try:
        p = CiscoConfParse(list(case["a"]), syntax=case["syn"])
        kw = {"ignore_ws": True} if case["ws"] else {}
        return {"exc": "", "missing": p.req_cfgspec_all_diff(list(case["b"]), **kw)}
    except Exception as e:
        return {"exc": type(e).__name__}


@kind("excl")
def k_excl(case):
    """several questions to one parse"""
    try:
        p = CiscoConfParse(list(case["a"]), syntax=case["syn"])
    except Exception as e:
        return {"exc": type(e).__name__}
    out = []
    for q in case["asks"]:
        before = list(p.ioscfg)
        try:
            reqs = list(q["reqs"])
            cmds = p.req_cfgspec_excl_diff(q["lp"]["src"], q["up"]["src"], reqs)
            out.append({"exc": "", "cmds": list(cmds), "intact": list(p.ioscfg) == before and reqs == q["reqs"]})
        except Exception as e:
            out.append({"exc": type(e).__name__})
    return {"outs": out}
