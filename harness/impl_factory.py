"""Observations of factory parses: class of every line, the tree, searches by class and by interface name."""
from impl import kind, proj
from ciscoconfparse import CiscoConfParse


@kind("factory")
def k_factory(case):
    try:
        p = CiscoConfParse(list(case["lines"]), **case["kw"])
        o = proj(p)
        objs = list(p.objs)
        pos = {id(x): i for i, x in enumerate(objs)}
        o["cls"] = [type(x).__name__ for x in objs]
        if [x.classname for x in objs] != o["cls"] or [x.dna for x in objs] != o["cls"]:
            o["cls"] = ["classname/dna differ from the type"]
        # empty lines are dropped on input by the plain parse only: leave them out of the comparison
        q = CiscoConfParse([l for l in case["lines"] if l != ""] if case["kw"]["ignore_blank_lines"] else list(case["lines"]), **{**case["kw"], "factory": False})
        o["same"] = (proj(q) == proj(CiscoConfParse([l for l in case["lines"] if l != ""], **case["kw"]))) if case["kw"]["ignore_blank_lines"] else proj(q) == {k: o[k] for k in proj(q)}
        o["plain"] = sorted({type(x).__name__ for x in q.objs})
        o["dna"] = [[pos.get(id(x), -1) for x in (p.find_objects_dna(d["p"]["src"], exactmatch=True) if d["exact"] else p.find_objects_dna(d["p"]["src"]))] for d in case["dna"]]
        o["intf"] = [[pos.get(id(x), -1) for x in p.find_interface_objects(s)] for s in case["intf"]]
        return o
    except Exception as e:
        return {"exc": type(e).__name__}


@kind("classes")
def k_classes(case):
    """the class of single lines"""
    out = []
    for l in case["lines"]:
        try:
            out.append(type(list(CiscoConfParse([l], syntax=case["syn"], factory=True).objs)[0]).__name__)
        except Exception as e:
            out.append("exc:" + type(e).__name__)
    return out
