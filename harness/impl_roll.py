"""Observations of Diff().diff() and Diff().rollback()."""
import os, tempfile
from impl import kind
from ciscoconfparse import Diff


def form(lines, via):
    if via == "none":
        return None, None
    if via == "list":
        return list(lines), None
    if via == "tuple":
        return tuple(lines), None
    text = "\n".join(lines) + ("\n" if via == "textnl" else "")
    if via == "file":
        fd, p = tempfile.mkstemp(dir=os.environ["VERIF_SCRATCH"])
        with os.fdopen(fd, "w") as fh:
            fh.write(text + "\n")
        return p, p
    return text, None


@kind("roll")
def k_roll(case):
    tmp = []
    try:
        (a, p), (b, q) = form(case["a"], case["via"][0]), form(case["b"], case["via"][1])
        tmp += [p, q]
        kw = {}
        if a is not None:
            kw["old_config"] = a
        if b is not None:
            kw["new_config"] = b
        copies = [list(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
        d = Diff(**kw)
        out, back = d.diff(), d.rollback()
        if d.diff() != out or d.rollback() != back:
            return {"exc": "second call differs"}
        return {"exc": "", "diff": list(out), "rollback": list(back),
                "intact": copies == [list(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]}
    except Exception as e:
        return {"exc": type(e).__name__}
    finally:
        for p in tmp:
            if p:
                os.unlink(p)
