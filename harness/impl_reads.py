import copy, json, os, random, re, signal
from ciscoconfparse import CiscoConfParse, Diff
from ciscoconfparse.ccp_abc import BaseCfgLine
from impl import kind, enc, NONE
from impl_query import run_query
from impl_edit import apply


BOOKKEEPING = ("line_id", "diff_id_list", "diff_word", "diff_side", "as_diff_dict",      # of a running HDiff, not of the configuration
               "uncfgtext")             # deprecated override: what req_cfgspec_excl_diff last made of the line


def show(v, pos):
    """an answer as text; lines by their position"""
    if isinstance(v, BaseCfgLine):
        return "line %s" % pos.get(id(v), "?")
    if isinstance(v, (list, tuple)):
        return [show(x, pos) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((show(x, pos) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(k): show(x, pos) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return type(v).__name__ + re.sub(r"0x[0-9a-f]+", "", repr(v))


def safe(f):
    try:
        return f()
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        if type(e).__name__ == "Hang":
            raise
        return "raises " + type(e).__name__


def ask(p, q):
    objs = list(p.objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    t = q["t"]
    if t == "tree":
        return [[o.text, o.linenum, o.indent, o.is_comment, show(o.parent, pos), show(o.children, pos), type(o).__name__] for o in objs]
    if t == "attributes":
        if not objs:
            return NONE
        o = objs[q["f"] * len(objs) // 1000]
        names = [n for n in dir(type(o)) if isinstance(getattr(type(o), n), property) and n not in BOOKKEEPING]
        random.Random(q["order"]).shuffle(names)
        return {n: safe(lambda: show(getattr(o, n), pos)) for n in names}
    if t == "query":
        return safe(lambda: show(run_query(p, q["q"], pos), pos))
    if t == "diff":
        d = safe(lambda: Diff("\n".join(p.ioscfg) + "\n", "\n".join(q["lines"]) + "\n"))
        return d if isinstance(d, str) else [safe(d.diff), safe(d.rollback)]
    if t == "sync_diff":
        return safe(lambda: list(p.sync_diff(list(q["lines"]), "", remove_lines=q["rm"])))
    if t == "excl_diff":
        return safe(lambda: list(p.req_cfgspec_excl_diff(q["spec"], q["spec"], list(q["lines"]))))
    if t == "all_diff":
        return safe(lambda: list(p.req_cfgspec_all_diff(list(q["lines"]))))
    if t == "copy":
        return [o.text for o in copy.copy(p.objs)]
    if t == "repr":
        return re.sub(r"0x[0-9a-f]+", "", repr(p)) + re.sub(r"0x[0-9a-f]+", "", repr(p.objs))
    raise KeyError(t)


class Elsewhere:
    """Answers questions in processes that have asked nothing before: forked from one that was
    itself forked before this worker did anything."""

    def __init__(self):
        a, b = os.pipe(), os.pipe()
        if os.fork() == 0:
            try:
                os.close(a[1]), os.close(b[0])
                self.serve(os.fdopen(a[0], "rb"), b[1])
            finally:
                os._exit(0)
        os.close(a[0]), os.close(b[1])
        self.req, self.ans = os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")

    @staticmethod
    def serve(req, ans):
        for line in req:
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_PROF, 20)
                q = json.loads(line)
                a = safe(lambda: json.dumps(ask(CiscoConfParse(q["lines"], **q["kw"]), q["q"]), sort_keys=True))
                with os.fdopen(ans, "wb") as f:
                    f.write(json.dumps(a).encode() + b"\n")
                os._exit(0)
            if os.waitpid(pid, 0)[1] != 0:
                os.write(ans, b'"no answer"\n')

    def ask(self, lines, kw, q):
        self.req.write(json.dumps({"lines": lines, "kw": kw, "q": q}).encode() + b"\n")
        self.req.flush()
        return json.loads(self.ans.readline())


elsewhere = None


@kind("reads")
def k_reads(case):
    global elsewhere
    elsewhere = elsewhere or Elsewhere()
    make = lambda k: CiscoConfParse(list(k["lines"]), **k["kw"])
    ps = [make(k) for k in case["confs"] if "of" not in k]
    n = len(ps)
    ps += [CiscoConfParse(["a"], **k["kw"]) for k in case["confs"][n:]]      # to be filled by "fresh"
    texts = lambda: [list(p.ioscfg) for p in ps]
    out = {"start": texts(), "events": []}
    for s in case["steps"]:
        i = s["c"] - 1
        ans = NONE
        if s["a"] == "ask" and s.get("elsewhere"):
            ans = elsewhere.ask(texts()[i], case["confs"][i]["kw"], s["q"])
        elif s["a"] == "ask":
            ans = json.dumps(ask(ps[i], s["q"]), sort_keys=True)
        elif s["a"] == "edit":
            try:
                apply(ps[i], s["op"])
            except Exception:
                pass
            try:
                ps[i].commit()
            except Exception:           # not a configuration of this kind any more
                break
        else:
            ps[i] = CiscoConfParse(texts()[case["confs"][i]["of"] - 1], **case["confs"][i]["kw"])
        out["events"].append({"c": i + 1, "texts": texts(), "ans": ans})
    return out
