"""Observations of CiscoPassword."""
from impl import kind
from ciscoconfparse.ciscoconfparse import CiscoPassword


@kind("seven")
def k_seven(case):
    try:
        if case["via"] == "init":
            out = CiscoPassword(case["e"]).decrypt()
        elif case["via"] == "both":      # the argument of decrypt() counts
            out = CiscoPassword("0822455D0A16").decrypt(case["e"])
        elif case["via"] == "again":
            q = CiscoPassword()
            q.decrypt("01100F175804")
            out = q.decrypt(case["e"])
        else:
            out = CiscoPassword().decrypt(ep=case["e"])
        return {"exc": "", "p": [ord(c) for c in out]}
    except Exception as e:
        return {"exc": type(e).__name__}
