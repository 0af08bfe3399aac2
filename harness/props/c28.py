import random
import gen, gen_attr, gen_nx as g

CFG = """SPECIFICATION Spec
CONSTANTS Cmds = {%s} Subs = {%s} MaxLen = %d MaxSub = %d Head_ = "interface %s" Nx = %s
INVARIANTS Defaults Emitted
PROPERTIES Steps BlockIsLocal
"""
NX = ["ip address 10.0.0.1/24", "ip address 10.0.9.1/24 secondary", "no ip address", "description vrf member NO", "description x", "vrf member A", "vpc 10", "vpc peer-link", "beacon", "mpls ip forwarding", "mtu 9216",
      "shutdown", "no shutdown", "fex associate 101", "spanning-tree port type edge trunk", "spanning-tree link-type shared", "ip dhcp relay address 10.1.1.1", "no ip dhcp relay address 10.1.1.9", "speed 1000", "duplex full",
      "channel-group 7 mode active", "ip access-group A in", "ip access-group A out", "no ip redirects", "no ip proxy-arp", "ip pim sparse-mode", "arp timeout 60", "switchport", "switchport mode access",
      "switchport mode trunk", "switchport trunk native vlan 9", "switchport access vlan 7", "storm-control broadcast level 1.00", "switchport port-security", "switchport nonegotiate", "switchport trunk allowed vlan 1-5",
      "switchport trunk allowed vlan add 4000", "switchport trunk allowed vlan except 5", "switchport trunk allowed vlan remove 2,4", "hsrp 10", "hsrp version 2", "carrier-delay msec 100", "bandwidth 1000", "delay 10", "no cdp enable",
      "encapsulation dot1q 10", "mac access-group M in", "ip address dhcp"]
CORE = ["ip address 10.0.0.1/24", "ip address 10.0.9.1/24 secondary", "hsrp 10", "switchport", "switchport mode trunk", "switchport trunk allowed vlan 1-5", "switchport trunk allowed vlan add 3-9", "switchport trunk allowed vlan none",
        "switchport trunk allowed vlan except 5", "switchport trunk allowed vlan remove 2,4"]
HS = ["ip 10.0.0.3", "ip 10.0.0.4 secondary", "priority 110", "preempt delay minimum 30", "timers msec 250 msec 750", "track 7", "name X"]
XR = ["ipv4 address 10.0.0.1 255.255.255.0", "ipv4 address 10.0.9.1 255.255.255.0 secondary", "ipv4 address dhcp", "no ipv4 address", "vrf A", "no vrf B", "description vrf NO", "description x", "mtu 9000", "shutdown", "no shutdown",
      "bandwidth 1000", "encapsulation dot1q 100", "duplex full", "speed 100", "carrier-delay 2", "hold-queue 75 in", "hold-queue 76 out", "mpls ip", "bundle id 10 mode active", "ip mtu 1400", "mpls mtu 1508"]


def stanzas(ck, r, cmds, subs, n, m, head, nx, cap):
    q = lambda s: ", ".join('"%s"' % c for c in s)
    gens = [tuple(x) for x in ck.model_check("MCNx", CFG % (q(cmds), q(subs), n, m, head, "TRUE" if nx else "FALSE"), "GEN", "MCNx %s stanzas of %d commands" % ("NX-OS" if nx else "IOS-XR", n))]
    gens = gens if len(gens) <= cap else r.sample(gens, cap)
    cases = []
    for seq, sub, want in gens:
        lines = ["interface " + head]
        for c in seq:
            lines += ["  " + c] + (["    " + s for s in sub] if c == "hsrp 10" else [])
        cases.append({"kind": "attr", "what": "nxos-intf" if nx else "xr-intf", "via": "list", "content": "", "lines": lines, "kw": {"syntax": "nxos" if nx else "iosxr", "factory": True},
                      "opts": {"cd": ["!"], "ign": False, "fac": True, "syn": "nxos" if nx else "iosxr"}, "nets": [], "want": want})
    ck.record(cases)
    for c in cases:
        got = c["obs"]["objs"][0]["attrs"] if c["obs"].get("objs") else c["obs"]
        for n, w in c.pop("want"):
            if not n.startswith("in_ipv4") and (got.get(n, "not observed") != w or type(got.get(n)) != type(w)):
                ck.violations.append(("generated-behaviour-" + n, str(w), str(got.get(n, got.get("exc", "not observed"))), 1, "CheckAttr", c))
    ck.traces += len(cases)


def run(ck):
    r = random.Random(ck.seed * 7919 + 28)
    t = ck.thorough
    stanzas(ck, r, NX, [], 2, 0, "Ethernet1/1.20", True, 10 ** 6 if t else 1500)
    stanzas(ck, r, CORE, HS if t else HS[:5], 4 if t else 3, 3 if t else 2, "port-channel5", True, 10 ** 5 if t else 1500)
    stanzas(ck, r, XR, [], 3 if t else 2, 0, "Bundle-Ether10.100", False, 10 ** 5 if t else 600)
    cases = []
    for what, mk, k in (("nxos-intf", lambda q: g.config(q, False), 1500), ("xr-intf", lambda q: g.config(q, True), 800), ("nxos-vpc", g.vpc, 500), ("nxos-route", g.routes, 800)):
        for _ in range(ck.scale(k, k * 10)):
            kw, o = gen.opts(r, syn="iosxr" if what == "xr-intf" else "nxos", fac=True, cd="!")
            cases.append(gen.edited(r, {"kind": "attr", "what": what, "via": "list", "content": "", "lines": mk(r), "kw": kw, "opts": o, "nets": [g.net(r) for _ in range(r.randint(0, 3))]}))
    for c in cases:
        if c["what"].endswith("-intf"):
            c["abbr"] = gen_attr.abbreviations(r, c["lines"])
    ck.record(cases)
    ck.judge("CheckAttr", cases)
    return ck.finish()
