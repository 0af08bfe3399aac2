import random
import gen, gen_lines as g

CFG = """SPECIFICATION Spec
CONSTANTS Heads = {%s} Vocab = {%s} Cmds = {%s} MaxWords = %d MaxLen = %d Nx = %s
INVARIANTS Named Emitted
PROPERTIES OwnWords FirstTimeout Servers Extends_
"""
AAA = ["aaa authentication login default", "aaa authentication enable default", "aaa authorization commands 15 VTY", "aaa authorization console 1 default"]
ACCT = ["aaa accounting exec default start-stop", "aaa accounting commands 15 default stop-only", "aaa accounting exec VTY none"]
VOCAB = ["group", "tacacs+", "radius", "local-case", "enable"]
REST = ["hostname R1", "no cdp run", "logging event link-status global", "spanning-tree portfast default", "spanning-tree portfast bpduguard default"]
ACCESS = ["line con 0", "line vty 0 4", "line 33", "line 1 48", "line vty"]
ACMDS = ["exec-timeout 5", "exec-timeout 0 30", "exec-timeout 9 0", "no exec-timeout", "login local", "session-timeout 7"]
SERVER = ["aaa group server tacacs+ T1", "aaa group server radius R"]
SCMDS = ["server-private 10.0.0.1 key x", "server-private 10.0.0.2", "server-private 10.0.0.1", "ip vrf forwarding A", "vrf forwarding B", "ip tacacs source-interface Vlan10", "server 10.0.0.9", "use-vrf management", "source-interface mgmt0"]


def model(ck, r, nx, heads, vocab, cmds, mw, ml, cap):
    q = lambda s: ", ".join('"%s"' % c for c in s)
    syn = "nxos" if nx else "ios"
    gens = [tuple(x) for x in ck.model_check("MCLines", CFG % (q(heads), q(vocab), q(cmds), mw, ml, "TRUE" if nx else "FALSE"), "GEN", "MCLines %s %s" % (syn, heads[0]))]
    gens = gens if len(gens) <= cap else r.sample(gens, cap)
    cases = [{"kind": "attr", "what": syn + "-lines", "via": "list", "content": "", "lines": [h] + [" " + c for c in seq], "kw": {"syntax": syn, "factory": True},
              "opts": {"cd": ["!"], "ign": False, "fac": True, "syn": syn}, "nets": [], "want": want} for h, seq, want in gens]
    ck.record(cases)
    for c in cases:
        got = c["obs"]["objs"][0]["attrs"] if c["obs"].get("objs") else c["obs"]
        for n, w in c.pop("want"):
            x = got.get(n, "not observed")
            if (sorted(w) != sorted(x) if n == "server_private" and isinstance(x, list) else x != w or type(x) != type(w)):
                ck.violations.append(("generated-behaviour-" + n, str(w), str(got.get(n, got.get("exc", "not observed"))), 1, "CheckAttr", c))
    ck.traces += len(cases)


def run(ck):
    r = random.Random(ck.seed * 7919 + 30)
    t = ck.thorough
    for nx in (False, True):
        model(ck, r, nx, AAA, VOCAB, ["exec-timeout 1"], 5 if t else 4, 1, 10 ** 6 if t else 1200)
        model(ck, r, nx, ACCT + REST, ["group", "tacacs+", "broadcast"], ["exec-timeout 1", "vrf forwarding A"], 4, 1, 10 ** 6)
        model(ck, r, nx, ACCESS, [], ACMDS, 0, 4 if t else 3, 10 ** 6 if t else 600)
        model(ck, r, nx, SERVER, [], SCMDS, 0, 4 if t else 3, 10 ** 6 if t else 500)
    cases = []
    for nx in (False, True):
        syn = "nxos" if nx else "ios"
        for _ in range(ck.scale(2500, 25000)):
            kw, o = gen.opts(r, syn=syn, fac=True, cd="!")
            cases.append(gen.edited(r, {"kind": "attr", "what": syn + "-lines", "via": "list", "content": "", "lines": g.config(r, nx), "kw": kw, "opts": o, "nets": []}))
    ck.record(cases)
    ck.judge("CheckAttr", cases)
    return ck.finish()
