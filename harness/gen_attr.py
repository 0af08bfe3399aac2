"""Configurations with interface stanzas built from the commands the models recognise, and lines close to them."""
import re
import gen

NAMES = ["GigabitEthernet0/1", "GigabitEthernet 0/2", "Serial1/0", "Serial 1/0.5 multipoint", "ATM2/0.100 point-to-point", "FastEthernet0", "Loopback0", "Vlan10",
         "Port-channel5", "Port-channel5.10", "Tunnel3", "Dialer1", "TenGigabitEthernet1/0/12", "GigabitEthernet1/1.4094", "Multilink7", "Async65", "BVI2", "Ethernet0/0",
         "Virtual-Template1", "TwentyFiveGigE1/0/1", "Cellular0/1/0", "HundredGigE1/0/3.7", "loopback9"]


ODD = "abzAZ0129_-.:/+%@&=~#[]()*,;<>"


def odd(r):
    """a name of a user's own: any printable word"""
    return r.choice("abzAZQ_") + "".join(r.choice(ODD) for _ in range(r.choice([0, 1, 3, 7, 15, 31])))


def a4(r):
    if r.random() < .25:
        return "%d.%d.%d.%d" % (r.randint(1, 223), r.randint(0, 255), r.randint(0, 255), r.randint(0, 255))
    return "%d.%d.%d.%d" % (r.choice([10, 10, 172, 192, 1, 100]), r.choice([0, 1, 16, 254]), r.choice([0, 1, 1, 2, 255]), r.choice([1, 1, 2, 5, 128, 129, 254]))


def mask(r):
    p = r.choice([24, 24, 24, 30, 31, 32, 16, 8, 25, 0, 9]) if r.random() < .8 else r.randint(0, 32)
    n = (2 ** 32 - 1) ^ (2 ** (32 - p) - 1)
    return ".".join(str(n >> k & 255) for k in (24, 16, 8, 0))


def a6(r):
    return r.choice(["2001:DB8::1", "2001:db8:0:1::a", "FE80::1", "fd00:1:2:3:4:5:6:7", "::1", "2001:db8::ffff:0:1"])


def word(r):
    return odd(r) if r.random() < .25 else r.choice(["ACL1", "101", "A-b_c", "FOO", "in", "out", "Gi0/1", "x.y", "10.1.1.1", "ip", "7"])


def text(r):
    return " ".join(odd(r) for _ in range(r.randint(1, 4))) if r.random() < .1 else r.choice(["uplink", "to R2  Gi0/1", "ip address 9.9.9.9 255.0.0.0", "shutdown", "standby 1 ip 9.9.9.9", "ip helper-address 9.9.9.9", "mtu 99", "** [x] (y) **", "5", "no shutdown", "switchport",
                     "use-bia", "switchport access vlan 99", "standby 1 track Serial9/9 99"])


def n(r):
    if r.random() < .2:
        return str(r.randint(1, 10 ** r.randint(1, 9)))
    return str(r.choice([1, 2, 9, 10, 64, 100, 1500, 9216, 4294, 65535, 1000000]))


def grp(r):
    return str(r.choice([1, 1, 2, 3, 10, 12, 255]))


CMDS = [
    lambda r: "description " + text(r), lambda r: "bandwidth " + n(r), lambda r: "delay " + n(r), lambda r: "hold-queue %s %s" % (n(r), r.choice(["in", "out"])),
    lambda r: "encapsulation " + r.choice(["ppp", "dot1Q 100", "dot1Q 10 native", "frame-relay", "hdlc"]), lambda r: "mpls ip", lambda r: "speed " + r.choice(["10", "100", "1000"]),
    lambda r: "duplex " + r.choice(["full", "half"]), lambda r: "carrier-delay " + r.choice(["2", "0", "msec 100", "msec 0", "msec 1500", "60"]), lambda r: "clock rate " + n(r),
    lambda r: "mtu " + n(r), lambda r: "mpls mtu " + n(r), lambda r: "ip mtu " + n(r), lambda r: "shutdown", lambda r: "no shutdown", lambda r: "no mtu",
    lambda r: r.choice(["ip vrf forwarding ", "vrf forwarding "]) + word(r), lambda r: "ip address %s %s" % (a4(r), mask(r)), lambda r: "ip address %s %s" % (a4(r), mask(r)),
    lambda r: "ip address %s %s secondary" % (a4(r), mask(r)), lambda r: "ip address %s %s secondary" % (a4(r), mask(r)), lambda r: "ip address " + r.choice(["dhcp", "negotiated"]),
    lambda r: "no ip address", lambda r: "ip unnumbered Loopback0", lambda r: "ipv6 address %s/%d" % (a6(r), r.choice([64, 64, 128, 48, 127, 0])), lambda r: "ipv6 address %s link-local" % a6(r),
    lambda r: "ipv6 address %s/64 eui-64" % a6(r), lambda r: "ipv6 address " + r.choice(["dhcp", "autoconfig"]), lambda r: "ipv6 enable",
    lambda r: "no ip %s" % r.choice(["unreachables", "redirects", "proxy-arp"]), lambda r: "ip %s" % r.choice(["unreachables", "redirects", "proxy-arp"]),
    lambda r: "ip pim %s" % r.choice(["dense-mode", "sparse-mode", "sparse-dense-mode"]), lambda r: "no ip pim sparse-mode", lambda r: "arp timeout " + n(r),
    lambda r: "ip helper-address " + r.choice(["", "", "global ", "vrf FOO "]) + a4(r), lambda r: "no ip helper-address " + a4(r),
    lambda r: "no cdp enable", lambda r: "cdp enable", lambda r: "xconnect %s %s encapsulation mpls" % (a4(r), n(r)), lambda r: "channel-group %d mode active" % r.choice([1, 12, 48]),
    lambda r: "mac access-group %s %s" % (word(r), r.choice(["in", "out"])), lambda r: "ip access-group %s %s" % (word(r), r.choice(["in", "out"])), lambda r: "ip access-group %s %s" % (word(r), r.choice(["in", "out"])),
    lambda r: "no ip access-group %s in" % word(r),
]
STANDBY = [
    lambda r, g: "standby %s ip %s" % (g, a4(r)), lambda r, g: "standby %s ip %s" % (g, a4(r)), lambda r, g: "standby %s ip %s secondary" % (g, a4(r)), lambda r, g: "standby %s ipv6 %s" % (g, a6(r).lower()),
    lambda r, g: "standby %s priority %s" % (g, r.choice(["90", "110", "255"])), lambda r, g: "standby %s preempt" % g, lambda r, g: "standby %s preempt delay minimum %s" % (g, r.choice(["30", "120"])),
    lambda r, g: "standby %s timers %s" % (g, r.choice(["1 3", "5 15", "msec 250 msec 750", "msec 500 2"])), lambda r, g: "standby version 2", lambda r, g: "standby %s authentication md5 key-chain %s" % (g, r.choice(["KC", "kc2"])),
    lambda r, g: "standby %s authentication cleartextpass" % g, lambda r, g: "standby %s track %s" % (g, r.choice(["Serial1/0 20", "5", "101 decrement 30", "Gi0/1", "7 15", "5 20", "7", "7 decrement 15", "7 25"])), lambda r, g: "standby use-bia",
    lambda r, g: "standby %s track %s" % (g, r.choice(["7", "7 15", "7 decrement 15", "7 25"])), lambda r, g: "standby %s track %s" % (g, r.choice(["Gi0/1", "Gi0/1 20"])),
    lambda r, g: "standby %s name HSRP" % g, lambda r, g: "no standby use-bia", lambda r, g: "no standby %s preempt" % g, lambda r, g: "standby delay minimum 30 reload 60"]


def vlist(r):
    out = []
    for _ in range(r.randint(1, 4)):
        a = r.choice([1, 2, 3, 5, 9, 10, 100, 1000, 4093, 4094, r.randint(1, 4094)])
        b = min(4094, a + r.choice([1, 2, 7, 90, 900, 4000])) if r.random() < .5 else a
        out.append("%d-%d" % (a, b) if b > a else str(a))
    return ",".join(out) if r.random() < .85 else r.choice([", ", " , ", " ,"]).join(out)


def trunk(r):
    """allowed-vlan commands: no explicit list replaces another one (the library accumulates them on purpose)"""
    out, listed = [], False
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        x = r.random()
        if x < .12:
            out.append("all"); listed = False
        elif x < .24:
            out.append("none"); listed = False
        elif x < .4 and not listed:
            out.append(vlist(r)); listed = True
        else:
            out.append(r.choice(["add ", "remove ", "except "]) + vlist(r))
    return ["switchport trunk allowed vlan " + x for x in out]


SWITCH = [lambda r: "switchport", lambda r: "switchport mode " + r.choice(["access", "trunk", "dynamic desirable"]), lambda r: "switchport nonegotiate", lambda r: "switchport trunk encap " + r.choice(["dot1q", "isl"]),
          lambda r: "switchport trunk native vlan %d" % r.randint(1, 4094), lambda r: "switchport access vlan %d" % r.randint(1, 4094), lambda r: "switchport port-security" + r.choice(["", " maximum 2"]),
          lambda r: "storm-control broadcast level 1.00", lambda r: "no switchport", lambda r: "switchport voice vlan 7", lambda r: "description " + text(r), lambda r: "spanning-tree portfast trunk"]

for _l in (CMDS, SWITCH):       # descriptions that read like commands
    _l += [lambda r: "description " + r.choice(CMDS)(r), lambda r: "description " + r.choice(r.choice([CMDS, SWITCH]))(r), lambda r: "description " + r.choice(STANDBY)(r, grp(r))]


def once(cmds, key=lambda c: tuple(c.split()[:3])):
    """single-valued switchport commands appear once"""
    seen, out = set(), []
    for c in cmds:
        k = key(c)
        if c.startswith("switchport") and "allowed" not in c:
            if k in seen:
                continue
            seen.add(k)
        out.append(c)
    return out


def kids(r, what):
    if what == "ios-switch":
        ks = [r.choice(SWITCH)(r) for _ in range(r.randint(0, 5))]
        if r.random() < .7:
            ks.append("switchport mode trunk") if not any("mode" in k for k in ks) else None
        ks = once(ks)
        r.shuffle(ks)
        for t in trunk(r):
            ks.insert(r.randint(0, len(ks)), None)
        it = iter(trunk_in(ks, r))
        return [k for k in it]
    ks = [r.choice(CMDS)(r) for _ in range(r.choice([0, 1, 2, 4, 6, 10, 16]))]
    if r.random() < .35:
        g = [grp(r), grp(r)]
        if r.random() < .8:
            ks.append("ip address %s %s" % (a4(r), mask(r)))
        hs = [r.choice(STANDBY)(r, r.choice(g)) for _ in range(r.randint(1, 9))]
        ks += hs
        r.shuffle(ks)
    if r.random() < .15:
        ks.append(r.choice(SWITCH)(r))
    return once(ks)


def trunk_in(ks, r):
    """replace the None marks by allowed-vlan commands in order"""
    k = sum(1 for x in ks if x is None)
    t = []
    while len(t) < k:
        t = trunk(r)
    t = iter(t[:k])
    return [next(t) if x is None else x for x in ks]


def config(r, what, names=NAMES):
    out = []
    for _ in range(r.randint(1, 3)):
        if r.random() < .3:
            out.append(r.choice(["hostname R1", "!", "router ospf 1", "ip access-list extended ACL1", "vlan 10", "no ip http server", "ip route 0.0.0.0 0.0.0.0 10.0.0.1"]))
            if out[-1].startswith(("router", "ip acc", "vlan")):
                out.append(" " + r.choice(["network 10.0.0.0 0.255.255.255 area 0", "permit ip any any", "name X", "shutdown", "mtu 77", "description foo"]))
        out.append("interface " + r.choice(names))
        step = r.choice([1, 1, 1, 2, 3])
        for k in kids(r, what):
            out.append(" " * step + k)
            if r.random() < .05:
                out.append(" " * step + r.choice(["! mtu 88", "! ip address 8.8.8.8 255.0.0.0", "!", "service-policy input X", "  "[:step]]))
            if r.random() < .04:
                out.append(" " * step + "service instance 7 ethernet")
                out.append(" " * (step + 1) + r.choice(["rewrite ingress tag pop 1 symmetric", "bridge-domain 7"]))
        if r.random() < .3:
            out.append("!")
    return [l for l in out if gen.safe(l)]


def net(r):
    return "%s/%d" % (a4(r), r.choice([0, 8, 16, 24, 24, 25, 30, 32]))


def route(r):
    six = r.random() < .4
    vrf = " vrf " + r.choice(["A", "mgmtVrf", "Red-1", "10", odd(r)]) if r.random() < .35 else ""
    intf = r.choice(["Null0", "Serial1/0", "GigabitEthernet0/0.100", "Vlan10", "Tunnel0", "Serial 1/0", "Port-channel5", "FastEthernet0/1"])
    opts = ["name " + r.choice(["N", "foobarme", "A_b-c.d", "tag", "7", odd(r), odd(r)]), "track " + r.choice(["1", "35", "500"]), "tag " + r.choice(["0", "20", "4294967295"]), r.choice(["multicast", "permanent" if not six else "unicast"])]
    opts = r.sample(opts, r.choice([0, 0, 1, 1, 2, 3, 4]))
    ad = " " + str(r.choice([1, 2, 5, 110, 254, 255])) if r.random() < .4 else ""
    if six:
        nh = r.choice([a6(r), "2001:db8:1:2:3:4:5:6", "fe80::a:b", intf, intf + " " + r.choice(["FE80::1", "2001:db8::5"])])
        return "ipv6 route%s %s/%d %s%s%s%s" % (vrf, r.choice(["::", "2001:DB8::", "2001:db8:1:2::", "FD00:1:2:3:4:5:6:7", "2000::", "2001:db8::1"]), r.choice([0, 3, 16, 32, 48, 64, 127, 128]), nh,
                                                " nexthop-vrf " + r.choice(["B", odd(r)]) if r.random() < .15 else "", ad, "".join(" " + o for o in opts))
    nh = r.choice([a4(r), a4(r), intf, intf + " " + a4(r)])
    if nh == intf and r.random() < .2:
        nh += " dhcp"
    return "ip route%s %s %s %s%s%s%s" % (vrf, a4(r), mask(r), nh, " global" if vrf and r.random() < .3 else "", ad, "".join(" " + o for o in opts))


def routes(r):
    out = []
    for _ in range(r.randint(1, 6)):
        out.append(route(r) if r.random() < .75 else r.choice(["!", "hostname R1", "ip routing", "interface Vlan10", "router ospf 1", "no ip route 10.0.0.0 255.0.0.0 Null0", "ip http server"]))
        if out[-1].startswith(("interface", "router")):
            out.append(" description ip route 1.1.1.0 255.255.255.0 Null0")
    return out


def abbreviations(r, lines):
    """names, whole or cut short, right or nearly right, of interfaces of a configuration"""
    names = [m.groups() for m in (re.match(r"interface\s+([A-Za-z-]+)\s*(\d\S*)", l) for l in lines) if m]
    out = []
    for _ in range(r.choice([0, 0, 3, 6])):
        if names:
            t, n = r.choice(names)
            if r.random() < .25:
                n = r.choice([n[:-1], n + "0", n.split(".")[0], n.split("/")[-1], n + ".1", "1" + n, r.choice(names)[1]])
            t = t[:r.randint(1, len(t))]
            if r.random() < .12:
                t = r.choice([t[1:], t + "x", r.choice(names)[0]])
            out.append(r.choice([t, t.lower(), t.upper()]) + r.choice(["", "", " ", " ", "  "] if r.random() < .9 else ["-"]) + n)
    return out
