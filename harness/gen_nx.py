"""NX-OS and IOS-XR configurations from the commands the models recognise, and lines close to them."""
import gen
from gen_attr import a4, a6, mask, word, text, n, net, trunk_in, vlist, once, odd

NXNAMES = ["Ethernet1/1", "Ethernet1/1.100", "port-channel10", "port-channel10.7", "Vlan100", "mgmt0", "loopback0", "Ethernet101/1/1", "nve1", "Ethernet1/49/2", "Ethernet2/48.4094", "Vlan1", "tunnel7"]
XRNAMES = ["GigabitEthernet0/0/0/1", "GigabitEthernet0/0/0/1.100", "TenGigE0/1/0/0", "Bundle-Ether10", "Loopback0", "BVI5", "tunnel-te5", "Bundle-Ether1.20", "GigabitEthernet0/0/0/1.100 l2transport",
           "HundredGigE0/0/0/25", "Serial0/2/0/3", "TenGigE0/1/0/11.4000 l2transport"]
ln = lambda r: r.choice([24, 24, 30, 31, 32, 16, 8, 25, 9]) if r.random() < .8 else r.randint(1, 32)
BOTH = [
    lambda r: "description " + r.choice([text(r), text(r), "x", "vrf member NO", "ip dhcp relay address 9.9.9.9", "vpc peer-link", "ip address 9.9.9.9/24", "hsrp 9", "switchport trunk allowed vlan 7", "vpc 77"]),
    lambda r: "speed " + r.choice(["10", "1000", "auto", "10000"]), lambda r: "duplex " + r.choice(["full", "half"]), lambda r: "bandwidth " + n(r), lambda r: "delay " + n(r),
    lambda r: "encapsulation " + r.choice(["dot1q 100", "dot1Q 10", "ppp"]), lambda r: "clock rate " + n(r), lambda r: "mtu " + n(r), lambda r: "mpls mtu " + n(r), lambda r: "ip mtu " + n(r),
    lambda r: "shutdown", lambda r: "no shutdown", lambda r: "no cdp enable", lambda r: "cdp enable", lambda r: "channel-group %d mode active" % r.choice([1, 12, 48]), lambda r: "channel-group 7",
    lambda r: "xconnect %s %s encapsulation mpls" % (a4(r), n(r)), lambda r: "mac access-group %s %s" % (word(r), r.choice(["in", "out"])), lambda r: "ip access-group %s %s" % (word(r), r.choice(["in", "out"])),
    lambda r: "carrier-delay " + r.choice(["2", "msec 100", "60"]), lambda r: "no mtu", lambda r: "no description"]
NX = BOTH + [
    lambda r: "beacon", lambda r: "no beacon", lambda r: "mpls ip forwarding", lambda r: "mpls ip", lambda r: "vrf member " + word(r), lambda r: "no vrf member X", lambda r: "vpc %d" % r.choice([1, 12, 100, r.randint(1, 4096)]),
    lambda r: "vpc peer-link", lambda r: "vpc orphan-port suspend", lambda r: "fex associate %d" % r.choice([101, 7, r.randint(100, 199)]), lambda r: "spanning-tree link-type " + r.choice(["point-to-point", "shared", "auto"]),
    lambda r: "spanning-tree port type " + r.choice(["edge", "edge trunk", "network", "normal"]), lambda r: "ip address %s/%d" % (a4(r), ln(r)), lambda r: "ip address %s/%d" % (a4(r), ln(r)),
    lambda r: "ip address %s/%d secondary" % (a4(r), ln(r)), lambda r: "no ip address", lambda r: "ip address dhcp" if r.random() < .3 else "no ip redirects", lambda r: "ip dhcp relay address " + a4(r),
    lambda r: "ip dhcp relay address " + a4(r), lambda r: "no ip dhcp relay address " + a4(r), lambda r: "no ip %s" % r.choice(["unreachables", "redirects", "proxy-arp"]),
    lambda r: "ip %s" % r.choice(["unreachables", "redirects", "proxy-arp"]), lambda r: "ip pim %s" % r.choice(["dense-mode", "sparse-mode", "sparse-dense-mode"]), lambda r: "arp timeout " + n(r),
    lambda r: "no switchport", lambda r: "hsrp version 2", lambda r: "hsrp use-bia", lambda r: "ip router ospf 1 area 0", lambda r: "no lldp transmit"]
XR = BOTH + [
    lambda r: "ipv4 address %s %s" % (a4(r), mask(r)), lambda r: "ipv4 address %s %s" % (a4(r), mask(r)), lambda r: "ipv4 address %s %s secondary" % (a4(r), mask(r)), lambda r: "vrf " + word(r), lambda r: "no vrf X",
    lambda r: "ipv4 address dhcp" if r.random() < .3 else "ipv6 enable", lambda r: "no ipv4 address", lambda r: "ipv4 mtu 1500", lambda r: "hold-queue %s %s" % (n(r), r.choice(["in", "out"])), lambda r: "mpls ip",
    lambda r: "bundle id 10 mode active", lambda r: "ipv6 address %s/64" % a6(r), lambda r: "load-interval 30"]
SW = [lambda r: "switchport", lambda r: "switchport mode " + r.choice(["access", "trunk", "trunk", "fex-fabric"]), lambda r: "switchport nonegotiate", lambda r: "switchport trunk encapsulation dot1q",
      lambda r: "switchport trunk native vlan %d" % r.randint(1, 4094), lambda r: "switchport access vlan %d" % r.randint(1, 4094), lambda r: "switchport port-security" + r.choice(["", " maximum 2"]),
      lambda r: "storm-control broadcast level 1.00", lambda r: "no switchport", lambda r: "switchport voice vlan 7"]
for _l in (NX, XR):             # descriptions that read like commands
    _l += [lambda r: "description " + r.choice(r.choice([NX, NX, SW, HS]))(r), lambda r: "description " + r.choice(XR)(r)]
HS = [lambda r: "ip " + a4(r), lambda r: "ip %s secondary" % a4(r), lambda r: "priority %d" % r.choice([90, 100, 110, 255]), lambda r: "priority 120 forwarding-threshold lower 1 upper 2", lambda r: "preempt",
      lambda r: "preempt delay minimum 30", lambda r: "timers " + r.choice(["1 3", "5 15", "msec 250 msec 750"]), lambda r: "track %d" % r.choice([1, 10, 500]), lambda r: "track 7 decrement 20",
      lambda r: "authentication md5 key-chain KC", lambda r: "name X", lambda r: "no preempt", lambda r: "mac-address 0000.0000.0001"]


def trunk(r):
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):
        x = r.random()
        out.append("all" if x < .1 else "none" if x < .2 else vlist(r) if x < .5 else r.choice(["add ", "add ", "remove ", "except "]) + vlist(r))
    return ["switchport trunk allowed vlan " + x for x in out]


def one(cmds):
    """at most one timers command"""
    out = []
    for c in cmds:
        if not (c.startswith("timers") and any(x.startswith("timers") for x in out)):
            out.append(c)
    return out


def kids(r, six):
    """children, each with its own children"""
    ks = [(r.choice(XR if six else NX)(r), []) for _ in range(r.choice([0, 1, 2, 4, 6, 10]))]
    if not six:
        if r.random() < .45:
            sw = once([r.choice(SW)(r) for _ in range(r.randint(1, 5))])
            ks += [(k, []) for k in sw]
        r.shuffle(ks)
        i = 0
        for t in trunk(r) if r.random() < .5 else []:
            i = r.randint(i, len(ks))
            ks.insert(i, (t, []))
            i += 1
        if r.random() < .3:
            if r.random() < .8:
                ks.append(("ip address %s/%d" % (a4(r), ln(r)), []))
            ks.insert(r.randint(0, len(ks)), ("hsrp %d%s" % (r.choice([1, 2, 10, 255]), r.choice(["", "", " ipv4"])), one(r.choice(HS)(r) for _ in range(r.randint(0, 6)))))
    else:
        r.shuffle(ks)
    return ks


def config(r, six):
    out = []
    for _ in range(r.randint(1, 3)):
        if r.random() < .3:
            out.append(r.choice(["hostname R1", "!", "router ospf 1", "vlan 10", "feature vpc", "ip route 0.0.0.0/0 10.0.0.1" if not six else "vrf A"]))
            if out[-1].startswith(("router", "vlan", "vrf")):
                out.append(" " + r.choice(["name X", "shutdown", "mtu 77", "description foo"]))
        out.append("interface " + r.choice(XRNAMES if six else NXNAMES))
        step = r.choice([1, 2, 2, 3])
        for k, sub in kids(r, six):
            out.append(" " * step + k)
            out += [" " * (step * 2) + s for s in sub]
            if r.random() < .05:
                out.append(" " * step + r.choice(["! mtu 88", "!", "service-policy input X"]))
        if r.random() < .3:
            out.append("!")
    return [l for l in out if gen.safe(l)]


VPC = [lambda r: "role priority %d" % r.choice([1, 100, 65535, r.randint(1, 65535)]), lambda r: "system-priority %d" % r.choice([1, 4000]), lambda r: "system-mac 0023.04ee.be01", lambda r: "peer-config-check-bypass", lambda r: "peer-switch",
       lambda r: "layer3 peer-router" + r.choice(["", " syslog"]), lambda r: "peer-gateway" + r.choice(["", " exclude-vlan 7"]), lambda r: "auto-recovery" + r.choice(["", " reload-delay %d" % r.choice([240, 60])]),
       lambda r: "ip arp synchronize", lambda r: "no ip arp synchronize", lambda r: "no peer-switch", lambda r: "no auto-recovery", lambda r: "ipv6 nd synchronize", lambda r: "delay restore 30", lambda r: "graceful consistency-check"]


def keep(r):
    opts = ["hold-timeout %d" % r.choice([3, 10]), "interval %d" % r.choice([400, 10000]), "timeout %d" % r.choice([3, 20]), "precedence " + r.choice(["6", "internet", "critical"]), "source " + a4(r),
            "tos " + r.choice(["0", "min-delay", "8"]), "tos-byte %d" % r.choice([192, 1, 255]), "udp-port %d" % r.choice([3200, 1024]), "vrf " + r.choice(["management", "KEEP", "default", odd(r)])]
    o = r.sample(opts, r.choice([0, 1, 2, 3, 5]))
    return "peer-keepalive destination " + a4(r) + "".join(" " + x for x in o)


def vpc(r):
    out = [r.choice(["feature vpc", "!", "hostname N1"])] if r.random() < .5 else []
    out.append("vpc domain %d" % r.choice([1, 10, 1000, r.randint(1, 1000)]))
    ks = [r.choice(VPC)(r) for _ in range(r.randint(0, 7))] + ([keep(r)] if r.random() < .7 else [])
    r.shuffle(ks)
    out += ["  " + k for k in ks]
    if r.random() < .5:
        out += ["interface Ethernet1/1", "  description peer-switch", "  vpc peer-link"]
    return out


INTFS = ["Ethernet1/1", "Null0", "Vlan100", "port-channel10.7", "mgmt0", "loopback0"]


def route(r):
    i = r.choice(INTFS)
    if r.random() < .35:
        nh = r.choice([a6(r), i, i + " " + a6(r)])
        return "ipv6 route%s %s/%d %s%s%s%s%s" % (r.choice(["", "", " vrf Red", " vrf " + odd(r)]), r.choice(["::", "2001:DB8::", "2001:db8:1:2::", "FD00:1:2:3:4:5:6:7"]), r.choice([0, 16, 32, 64, 128]), nh,
                                                  r.choice(["", "", " nexthop-vrf B", " nexthop-vrf " + odd(r)]), r.choice(["", "", " 5", " 200"]), r.choice(["", "", " multicast", " unicast"]), r.choice(["", "", " tag 20"]))
    nh = r.choice([a4(r), a4(r), i, i + " " + a4(r)])
    return "ip route %s/%d%s%s%s%s%s%s" % (a4(r), r.choice([0, 8, 16, 24, 25, 32]), r.choice([" ", " ", "  "]), nh, r.choice(["", "", " track 7"]), r.choice(["", "", " name N1", " name tag", " name " + odd(r)]), r.choice(["", "", " tag 20"]),
                                           r.choice(["", "", " 5", " 254"]))


def routes(r):
    out = []
    for _ in range(r.randint(1, 6)):
        out.append(route(r) if r.random() < .8 else r.choice(["!", "hostname R1", "interface Vlan10", "ip pim rp-address 1.1.1.1"]))
        if out[-1].startswith("interface"):
            out.append("  description ip route 1.1.1.0/24 Null0")
    return out
