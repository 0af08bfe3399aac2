"""Random asa configurations."""
import gen
from gen_attr import a4, mask, net, odd
TCP = "aol bgp chargen cifs citrix-ica cmd ctiqbe daytime discard domain echo exec finger ftp ftp-data gopher h323 hostname http https ident imap4 irc kerberos klogin kshell ldap ldaps login lotusnotes lpd netbios-ssn nfs nntp pcanywhere-data pim-auto-rp pop2 pop3 pptp rsh rtsp sip smtp sqlnet ssh sunrpc tacacs talk telnet uucp whois www".split()
UDP = "biff bootpc bootps cifs discard domain echo http isakmp kerberos mobile-ip nameserver netbios-dgm netbios-ns nfs ntp pcanywhere-status pim-auto-rp rip sip snmp snmptrap sunrpc syslog tacacs talk tftp time who www xdmcp".split()
BOTH = [x for x in TCP if x in UDP]
NAMES = ["srv", "srv01", "LOG-host", "dmz_1", "10", "any", "a:b", "s/1", "x+y", "(z)"]
GROUPS = ["A", "B", "INSIDE_addrs", "g1", "host", "A.b:c", "G/1+2", "[q]"]


def port(r, proto):
    return r.choice({"tcp": TCP, "udp": UDP}.get(proto, BOTH)) if r.random() < .5 else str(r.choice([1, 2, 7, 22, 80, 443, 8080, 65534, 65535, r.randint(1, 65535), 0, 65536, 70000] if r.random() < .15 else [1, 2, 7, 9, 22, 80, 443, 8080, 65534, 65535, r.randint(1, 65535)]))


def spec(r, proto, ops=("eq", "neq", "lt", "gt", "range", "")):
    op = r.choice(ops)
    if op == "range":
        return "range %s %s" % (port(r, proto), port(r, proto))
    return (op + " " + port(r, proto)).strip()


def members(r, kind):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        x = r.random()
        if x < .08:
            out.append("description " + r.choice(["servers", "network-object host 1.1.1.1", "group-object A", "x"]))
        elif x < .25:
            out.append("group-object " + r.choice(GROUPS))
        elif kind == "network":
            h = r.choice(NAMES) if r.random() < .4 else a4(r)
            out.append(r.choice(["network-object host " + h, "network-object host " + h, "network-object %s %s" % (h, mask(r)), "network-object %s 255.255.255.255" % h]))
        else:
            p = r.choice(["tcp", "udp", "tcp-udp"])
            out.append("service-object %s %s %s" % (p, r.choice(["destination", "source"]), spec(r, p)) if r.random() < .6 else "port-object " + spec(r, kind, ("eq", "eq", "range")))
        if r.random() < .01:
            out.append(r.choice(["network-object object X", "service-object icmp", "icmp-object echo", "port-object gt 5"]))
    return out


def config(r):
    out = []
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if x < .35:
            out.append("name %s%s%s%s" % (a4(r), r.choice([" ", " ", "  "]), r.choice(NAMES), r.choice(["", "", " description the server"])))
        elif x < .6:
            out.append("object-group network " + r.choice(GROUPS))
            out += [" " + m for m in members(r, "network")]
        elif x < .85:
            t = r.choice(["", " tcp", " udp", " tcp-udp"])
            out.append("object-group service " + r.choice(GROUPS) + t)
            ms = members(r, t.strip())
            out += [" " + m for m in ms if t or not m.startswith("port-object") or r.random() < .1]
        else:
            out.append(r.choice(["names", "!", "hostname fw", "object network X", "access-list A extended permit ip any any", "access-list B extended deny tcp any any eq 80", "access-list A remark hello there", "object-group icmp-type Z", "domain-name x.y", "name-server 1.1.1.1", "access-group A in interface inside"]))
            if out[-1].startswith("object network"):
                out.append(" host 1.1.1.1")
    return out


def cyclic(lines):
    """a group that reaches itself through another group: outside what is specified"""
    ref, kind = {}, None
    for l in lines:
        w = l.split()
        if l.startswith("object-group "):
            kind = (w[1], w[2])
            ref.setdefault(kind, set())
        elif not l.startswith(" "):
            kind = None
        elif kind and w[0] == "group-object" and (kind[0], w[1]) != kind:
            ref[kind].add((kind[0], w[1]))
    def walk(k, seen):
        return k in seen or any(walk(x, seen | {k}) for x in ref.get(k, ()))
    return any(walk(k, frozenset()) for k in ref)


INTF = ["GigabitEthernet0/0", "GigabitEthernet0/1.100", "Ethernet0/0", "Management0/0", "TenGigabitEthernet0/8", "Port-channel1", "Port-channel1.20", "Vlan10", "Redundant1", "GigabitEthernet1/0/3", "Loopback5", "Tunnel7"]
PROTO = "ip tcp udp icmp ah eigrp esp gre igmp igrp ipinip ipsec ospf pcp pim pptp snp 6 17 99 0".split()
LEVELS = "alerts critical debugging emergencies errors informational notifications warnings 0 3 7".split()


def acl_addr(r):
    return r.choice(["any", "any", "any4", "host " + a4(r), r.choice(["object OBJ_" + str(r.randint(0, 9)), "object " + odd(r)]), r.choice(["object-group G" + str(r.randint(0, 3)), "object-group " + odd(r)]), "%s %s" % (a4(r), mask(r))])


def acl_port(r, p):
    return r.choice(["eq ", "neq ", "lt ", "gt "]) + port(r, p) if r.random() < .6 else r.choice(["range %s %s" % (port(r, p), port(r, p)), "object-group PORTS", "object-group " + odd(r)])


def acl(r):
    name = r.choice(["OUT", "acl-1", "A.b_c", "100", "extended", odd(r)])
    x = r.random()
    if x < .12:
        return "access-list %s remark %s" % (name, r.choice(["permit tcp any any", "x", "Block bad guys  here", "extended deny ip any any log", "a-b", "10"]))
    act = r.choice(["permit", "deny"])
    if x < .25:
        return "access-list %s standard %s %s" % (name, act, r.choice(["any", "any4", "host " + a4(r), "%s %s" % (a4(r), mask(r))]))
    p = r.choice(PROTO) if r.random() < .7 else r.choice(["tcp", "udp", "icmp"])
    if r.random() < .15:
        p = "object-group " + r.choice(["SVC", odd(r)])
    out = ["access-list", name, "extended", act, p, acl_addr(r)]
    l4 = p in ("tcp", "udp")
    if l4 and r.random() < .3:
        out.append(acl_port(r, p))
    out.append(acl_addr(r))
    if l4 and r.random() < .5:
        out.append(acl_port(r, p))
    if p == "icmp" and r.random() < .5:
        out.append(r.choice(["echo", "echo-reply", "unreachable", "time-exceeded", "timestamp-request", "8", "traceroute"]))
    if r.random() < .4:
        out.append("log")
        if r.random() < .5:
            out.append(r.choice(LEVELS))
        if r.random() < .4:
            out.append("interval %d" % r.choice([1, 60, 300, 600, r.randint(1, 600)]))
    if r.random() < .15:
        out.append("disable")
    if r.random() < .25:
        out.append(r.choice(["inactive", "time-range WORK", "time-range t1", "time-range " + odd(r)]))
    return " ".join(out)


def acls(r):
    out = []
    for _ in range(r.randint(1, 8)):
        out.append(acl(r) if r.random() < .85 else r.choice(["!", "hostname fw", "interface Vlan10", "access-group OUT in interface inside", "object-group network G1", "object network O"]))
        if out[-1].startswith(("interface", "object")):
            out.append(" description " + acl(r)[:40].rstrip())
    return out


def stanza(r):
    from gen_attr import a6, once, text
    ks = []
    C = [lambda: "description " + r.choice(["x", "to the core", "ip address 1.1.1.1 255.0.0.0", "shutdown", text(r)]), lambda: "delay %d" % r.choice([1, 10, 1000]), lambda: "speed " + r.choice(["10", "100", "1000", "auto", "nonegotiate"]),
         lambda: "duplex " + r.choice(["full", "half"]), lambda: r.choice(["shutdown", "shutdown", "no shutdown"]), lambda: "nameif " + r.choice(["inside", "OUTSIDE", odd(r)]), lambda: "security-level 100", lambda: "vlan %d" % r.randint(1, 4094),
         lambda: "ip address %s %s" % (a4(r), mask(r)), lambda: "ip address %s %s standby %s" % (a4(r), mask(r), a4(r)), lambda: "ip address dhcp setroute", lambda: "no ip address",
         lambda: "ipv6 address %s/%d" % (a6(r), r.choice([48, 64, 127, 128])), lambda: "ipv6 address 2001:db8::%d/64 standby 2001:db8::%d" % (r.randint(1, 9), r.randint(10, 99)), lambda: "ipv6 enable", lambda: "ipv6 address autoconfig",
         lambda: "ip pim sparse-mode", lambda: "switchport access vlan %d" % r.randint(1, 4094), lambda: "switchport mode access", lambda: "switchport mode trunk", lambda: "switchport trunk allowed vlan 1-5", lambda: "no switchport",
         lambda: "management-only", lambda: "mtu 1500", lambda: "channel-group 1 mode active"]
    C += [lambda: "description " + r.choice(C)(), lambda: "description " + r.choice(C)()]
    for _ in range(r.choice([0, 1, 2, 4, 7, 10])):
        ks.append(r.choice(C)())
    one = {}
    for k in ks:
        w = k.split()
        one.setdefault("ip address" if k.startswith(("ip address", "no ip address")) else w[0] if w[0] in ("description", "speed", "duplex", "delay") else " ".join(w[:3]), k)
    return list(one.values())


def intfs(r):
    out = []
    for _ in range(r.randint(1, 3)):
        if r.random() < .3:
            out.append(r.choice(["hostname fw-%d" % r.randint(0, 9), "!", "route inside 0.0.0.0 0.0.0.0 10.0.0.1 1", "mtu inside 1500", "router ospf 1"]))
            if out[-1].startswith("router"):
                out.append(" network 10.0.0.0 255.0.0.0 area 0")
        out.append("interface " + r.choice(INTF))
        step = r.choice([1, 1, 1, 2])
        out += [" " * step + k for k in stanza(r)]
        if r.random() < .3:
            out.append("!")
    return [l for l in out if gen.safe(l)]
