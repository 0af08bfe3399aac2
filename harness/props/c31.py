import random
import gen, gen_asa as g
from gen_attr import net
from props.c25 import replay

ACL = """SPECIFICATION Spec
CONSTANTS Addrs = {%s} Protos_ = {"ip", "tcp", "icmp", "object-group SVC"%s} Rich = %s
INVARIANTS RoundTrip Emitted
PROPERTIES OneField
"""


def run(ck):
    r = random.Random(ck.seed * 7919 + 31)
    t = ck.thorough
    a = ["any", "host 1.1.1.1", "object-group G", "10.0.0.0 255.0.0.0"] + (["object O", "any4"] if t else [])
    gens = [tuple(x) for x in ck.model_check("MCAcl", ACL % (", ".join('"%s"' % x for x in a), ', "udp", "99"' if t else "", "TRUE" if t else "FALSE"), "GEN", "MCAcl entries")]
    replay(ck, gens if t else r.sample(gens, min(len(gens), 5000)), "asa-acl", "asa")
    cases = []
    for what, mk, n in (("asa-acl", g.acls, 1500), ("asa-intf", g.intfs, 2000), ("asa-host", g.intfs, 300)):
        for _ in range(ck.scale(n, n * 10)):
            kw, o = gen.opts(r, syn="asa", fac=True, cd="!")
            nets = [net(r) for _ in range(r.randint(1, 3))]
            cases.append(gen.edited(r, {"kind": "attr", "what": what, "via": "list", "content": "", "lines": mk(r), "kw": kw, "opts": o, "nets": nets}))
    ck.record(cases)
    ck.judge("CheckAttr", cases)
    return ck.finish()
