import random
import gen, gen_attr as g

CFG = """SPECIFICATION Spec
CONSTANTS Cmds = {%s} MaxLen = %d Head_ = "%s" Emit = %s
INVARIANTS Defaults Emitted
PROPERTIES Steps
"""
CMDS = ["ip address 10.0.0.1 255.255.255.0", "ip address 10.0.9.1 255.255.255.0 secondary", "ip address dhcp", "no ip address", "ipv6 address 2001:db8::1/64", "description shutdown", "mtu 1500", "ip mtu 1400",
        "mpls mtu 1508", "mpls ip", "shutdown", "no shutdown", "vrf forwarding A", "ip vrf forwarding B", "ip helper-address vrf X 10.1.1.1", "ip access-group A in", "ip access-group A out", "mac access-group 700 in",
        "no ip proxy-arp", "no ip redirects", "ip pim sparse-mode", "speed 100", "duplex full", "carrier-delay msec 100", "carrier-delay 3", "standby 1 ip 10.0.0.3", "standby 1 priority 110", "standby 1 preempt delay minimum 30",
        "standby 2 ip 10.0.0.4", "standby 1 track Gi0/1 20", "switchport", "switchport mode access", "arp timeout 60", "channel-group 7 mode on", "bandwidth 1000", "encapsulation ppp", "xconnect 10.0.0.9 55 encapsulation mpls",
        "hold-queue 75 in", "! mtu 99", "no cdp enable", "standby 1 timers msec 250 msec 750"]
CORE = ["ip address 10.0.0.1 255.255.255.0", "ip address 10.0.9.1 255.255.255.0 secondary", "ip address dhcp", "standby 1 ip 10.0.0.3", "standby 1 priority 110", "standby 1 preempt delay minimum 30",
        "standby 1 ip 10.0.0.5 secondary", "no ip proxy-arp", "mac access-group 700 in", "switchport", "duplex full", "vrf forwarding A"]


def run(ck):
    r = random.Random(ck.seed * 7919 + 23)
    q = lambda s: ", ".join('"%s"' % c for c in s)
    gens = [("GigabitEthernet0/1", x) for x in ck.model_check("MCAttr", CFG % (q(CMDS), 2, "interface GigabitEthernet0/1", "TRUE"), "GEN", "MCAttr stanzas of 2 commands")]
    gens += [("Vlan10", x) for x in ck.model_check("MCAttr", CFG % (q(CORE), 4 if ck.thorough else 3, "interface Vlan10", "TRUE"), "GEN", "MCAttr stanzas of related commands")]
    if not ck.thorough and len(gens) > 2500:
        gens = r.sample(gens, 2500)
    cases = []
    for name, (seq, want) in gens:
        cases.append({"kind": "stanza", "name": name, "cmds": seq, "want": want})
    ck.record(cases)
    for c in cases:
        got = c["obs"]
        for n, w in c["want"]:
            o = got.get(n, "not observed")
            if n.startswith("in_ipv4_subnet"):
                continue
            if o != w:
                ck.violations.append(("generated-behaviour-" + n, str(w), str(o), 1, "CheckAttr", c))
    ck.traces += len(cases)
    cases = []
    for _ in range(ck.scale(1800, 20000)):
        kw, o = gen.opts(r, syn="ios", fac=True, cd="!")
        cases.append(gen.edited(r, {"kind": "attr", "what": "ios-intf", "via": "list", "content": "", "lines": g.config(r, "ios-intf"), "kw": kw, "opts": o, "nets": [g.net(r) for _ in range(r.randint(0, 3))]}))
    for c in cases:
        c["abbr"] = g.abbreviations(r, c["lines"])
    ck.record(cases)
    ck.judge("CheckAttr", cases)
    return ck.finish()
