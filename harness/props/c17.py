import random, re
import gen, gen_factory as f
from gen_rx import lit

CFG = """SPECIFICATION Spec
CONSTANTS MaxWords = %d
 Vocab = {%s}
INVARIANTS Sane Margin%s
PROPERTIES Keeps
"""
V = ["interface", "hostname", "ip", "ipv6", "route", "line", "aaa", "authentication", "login", "enable", "authorization", "commands", "console", "accounting", "exec",
     "group", "server", "no", "cdp", "run", "vpc", "domain", "name", "object", "object-group", "network", "service", "mtu", "access-list", "spanning-tree", "portfast", "default", "Gi0/1", "x"]
DNA = ["Intf", "IntfLine", "Hostname", "Route", "Aaa", "CfgLine", "IOS", "NXOS", "ASA", "ObjGroup", "Global", "IOSCfgLine", "IOSIntfLine", "ASAName", "AaaLogin", "XR", "vPC", "AccessLine", "nothing"]


def run(ck):
    r = random.Random(ck.seed * 7919 + 17)
    q = lambda ws: ", ".join('"%s"' % w for w in ws)
    gens = ck.model_check("MCFactory", CFG % (2, q(V), " Emitted"), "GEN", "MCFactory lines of 2 words")
    deep = ["aaa", "authentication", "authorization", "accounting", "login", "enable", "commands", "console", "exec", "group", "server", "interface", "no", "cdp", "run"]
    more = ck.model_check("MCFactory", CFG % (3, q(deep), " Emitted"), "GEN", "MCFactory lines of 3 words")
    bad = 0
    # the classes TLC predicts for every enumerated line are those of the code (spec -> implementation);
    # commands whose models refuse malformed arguments are left out
    want = {}
    for l, cl in gens + (more if ck.thorough else r.sample(more, min(2500, len(more)))):
        for syn in ("ios", "nxos", "iosxr", "asa"):
            if not cl[syn].endswith(("RouteLine", "AclLine", "ASAName", "GroupServerLine")) and not gen_skip(l):
                want.setdefault(syn, []).append((l, cl[syn]))
    single = [{"kind": "classes", "syn": syn, "lines": [l for l, _ in part], "want": [w for _, w in part]}
              for syn, items in want.items() for part in [items[i:i + 100] for i in range(0, len(items), 100)]]
    ck.record(single)
    n = 0
    for c in single:
        n += len(c["lines"])
        if c["obs"] != c["want"]:
            k = next((i for i in range(len(c["lines"])) if i >= len(c["obs"]) or c["obs"][i] != c["want"][i]), 0)
            ck.violations.append(("generated-behaviour-class", c["want"][k], str(c["obs"][k]) + " for " + repr(c["lines"][k]), 1, "CheckFactory", {**c, "lines": [c["lines"][k]], "want": [c["want"][k]], "obs": [c["obs"][k]]}))
    ck.traces += len(single)
    ck.notes["single lines replayed"] = n
    cases = []
    for _ in range(ck.scale(2500, 25000)):
        kw, o = gen.opts(r, fac=True)
        lines = f.config(r, o["syn"], kw["comment"])
        dna = []
        for _ in range(2):
            d = r.choice(DNA)
            s, a = lit(d)
            dna.append({"p": {"src": s, "ic": False, "ng": 0, "alts": [[a]]}, "exact": r.random() < .4})
        spec = f.abbreviations(r, o["syn"], lines) if o["syn"] in ("ios", "nxos", "iosxr") and not odd(lines) else []
        cases.append({"kind": "factory", "via": "list", "content": "", "lines": lines, "kw": kw, "opts": o, "dna": dna, "intf": spec})
    ck.record(cases)
    ck.judge("CheckFactory", cases)
    return ck.finish()


def gen_skip(l):
    return l.strip() in ("interface", "interface x")


def odd(lines):
    """interface names that are not a type and a number"""
    return any(l.startswith("interface") and not re.fullmatch(r"interface\s+[A-Za-z-]+ ?\d[\d/.]*(\s+(point-to-point|l2transport))?\s*", l) for l in lines)
