import random
import gen, gen_attr, gen_lines, gen_nx

CFG = """INIT Init
NEXT Next
CONSTANTS Words_ = {%s} MaxWords = %d MaxIndent = 2 MaxResets = %d
INVARIANTS Involution SameDepth Kept InFront Emitted
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 32)
    gens = ck.model_check("MCCommands", CFG % ('"no", "ip", "shutdown"', ck.scale(3, 4), 3), "GEN", "MCCommands")
    cases = []
    seen = sorted({tuple(x) for x in gens})
    for a in range(0, len(seen), 20):
        part = [x for x in seen[a:a + 20] if x[0].strip() not in ("", "no")]
        cases.append({"kind": "uncfg", "via": "list", "content": "", "lines": [x[0] for x in part], "kw": {"syntax": "ios"}, "opts": {"cd": ["!"], "ign": False, "fac": False, "syn": "ios"}, "want": [x[1] for x in part]})
    ck.record(cases)
    for c in cases:
        if c["obs"].get("uncfg") != c.pop("want"):
            ck.violations.append(("generated-behaviour-uncfgtext", "", str(c["obs"])[:300], 1, "CheckLine", c))
    ck.traces += len(cases)
    for _ in range(ck.scale(800, 8000)):
        kw, o = gen.opts(r)
        lines = gen.indented(r, r.choice([3, 8, 16]), kw["comment"], comments=.05)
        lines = [(l[:len(l) - len(l.lstrip())] + r.choice(["no ", "No ", "no  ", "NO\t", "no no ", "nothing ", "no-op "]) + l.lstrip()) if l.strip() and r.random() < .35 else l for l in lines]
        lines = [l for l in lines if l.strip().lower() not in ("no",)]
        cases.append(gen.tree_case(r, lines, kw, o, kind="uncfg"))
    for _ in range(ck.scale(1500, 15000)):
        syn = r.choice(["ios", "ios", "nxos", "iosxr"])
        lines = gen_attr.config(r, "ios-intf") if syn == "ios" else gen_nx.config(r, syn == "iosxr")
        if syn != "iosxr":
            x = gen_lines.config(r, syn == "nxos")
            lines = x + lines if r.random() < .5 else lines + x
        lines = [l for l in lines if not l.startswith("banner")]
        kw, o = gen.opts(r, syn=syn, fac=True, cd="!")
        picks = [r.randint(0, 9) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        atomic = r.random() < .7
        cases.append({"kind": "reset", "via": "list", "content": "", "lines": lines, "kw": kw, "opts": o, "picks": picks, "atomic": atomic, "default": r.random() < .5})
    ck.record([c for c in cases if "obs" not in c])
    ck.judge("CheckLine", cases)
    return ck.finish()
