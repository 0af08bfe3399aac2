"""Commands that withdraw or reset a line."""
from impl import kind
from ciscoconfparse import CiscoConfParse


@kind("uncfg")
def k_uncfg(case):
    try:
        p = CiscoConfParse(list(case["lines"]), **case["kw"])
        return {"uncfg": [o.uncfgtext if o.text.strip() else "" for o in p.objs]}
    except Exception as e:
        return {"exc": type(e).__name__}


RESET = ("IOSIntfLine", "NXOSIntfLine", "IOSXRIntfLine", "IOSAccessLine", "NXOSAccessLine")


@kind("reset")
def k_reset(case):
    """resets some of the lines that offer it, one after the other; "at": where each was"""
    try:
        p = CiscoConfParse(list(case["lines"]), **case["kw"])
        at = []
        for k in case["picks"]:
            objs = [o for o in p.objs if type(o).__name__ in RESET]
            if not objs:
                break
            o = objs[k % len(objs)]
            at.append(o.linenum if case["atomic"] else [i for i, x in enumerate(p.objs) if x is o][0])
            o.reset() if case["default"] and case["atomic"] else o.reset(atomic=case["atomic"])
        objs = list(p.objs)
        return {"at": at, "text": [o.text for o in objs], "num": [o.linenum for o in objs], "par": [o.parent.linenum for o in objs], "kids": [[c.linenum for c in o.children] for o in objs]}
    except Exception as e:
        return {"exc": type(e).__name__}
