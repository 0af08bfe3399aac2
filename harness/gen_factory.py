"""Configurations mixing specialised and plain lines."""
import gen

IOS = ["interface GigabitEthernet0/1", "interface Serial 1/0", "interface Vlan10", "interface Loopback0", "interface ATM2/0.100 point-to-point",
       "interface FastEthernet0/2", "interface Port-channel7", "interface GigabitEthernet1/0/1.20", "interface TenGigabitEthernet1/1/4",
       "ip route 0.0.0.0 0.0.0.0 10.0.0.1", "ip route 10.1.0.0 255.255.0.0 Serial1/0 10.0.0.2 200 name X", "ip route vrf A 1.1.1.0 255.255.255.0 Null0",
       "ipv6 route 2001:db8::/32 2001:db8::1", "ipv6 route ::/0 GigabitEthernet0/1 FE80::1",
       "line vty 0 4", "line con 0", "line aux 0", "line 33 48",
       "aaa authentication login default group tacacs+ local", "aaa authentication enable default group tacacs+ enable",
       "aaa authorization commands 15 default group tacacs+ local", "aaa authorization console", "aaa accounting commands 15 default start-stop group tacacs+",
       "aaa accounting exec default start-stop group tacacs+", "aaa group server tacacs+ TACGRP", "aaa group server radius R2",
       "hostname R1", "no cdp run", "logging event link-status global", "spanning-tree portfast default", "spanning-tree portfast bpduguard default"]
NXOS = ["interface Ethernet1/1", "interface Ethernet1/2.10", "interface mgmt0", "interface Vlan100", "interface port-channel20", "interface loopback3",
        "ip route 10.0.0.0/8 10.1.1.1", "ip route 0.0.0.0/0 Null0", "line vty", "line console", "vpc domain 10", "feature vpc",
        "ipv6 route ::/0 2001:db8::1"] + IOS[18:]
XR = ["interface GigabitEthernet0/0/0/1", "interface TenGigE0/0/0/2.100 l2transport", "interface Bundle-Ether10", "interface MgmtEth0/RSP0/CPU0/0",
      "interface preconfigure GigabitEthernet0/0/0/9", "interface Loopback0", "router static", "hostname xr", "line console"]
ASA = ["interface GigabitEthernet0/1", "interface Management0/0", "interface Ethernet0/0.10", "name 1.1.2.20 loghost01", "name 1.1.3.0 net3", "object network OBJ1",
       "object service SVC", "object-group network ANY", "object-group service APP tcp", "object-group service S2", "mtu inside 1500", "hostname fw",
       "access-list OUT extended permit tcp any host 10.1.1.1 eq 22", "access-list OUT remark hi there", "access-list IN extended deny ip any any log",
       "route outside 0.0.0.0 0.0.0.0 1.2.3.4 1", "names"]
NEAR = ["no interface Vlan10", "interfaces", "ip routing", "ip routing protocol purge interface", "ipv6 router ospf 1", "no hostname R1", "no ip route 1.1.1.0 255.255.255.0 Null0",
        "description interface Serial1/0", "Hostname X", "aaa new-model", "aaa session-id common", "aaa authentication ppp default local", "aaa accounting system default",
        "aaa group", "cdp run", "no cdp enable", "spanning-tree mode pvst", "no line vty 5 15", "ip access-list extended A", "banners", "vlan 10", "vpc 10", "object-group protocol P",
        "object-group icmp-type I", "logging event link-status", "names x", "mtx", "ip  local pool A", "switchport", "exit", "router ospf 1"]
LINES = {"ios": IOS, "nxos": NXOS, "iosxr": XR, "asa": ASA}
KIDS = ["ip address 10.1.1.1 255.255.255.0", "description foo", "shutdown", "no shutdown", "hostname inner", "ip route 1.1.1.0 255.255.255.0 Null0", "line vty 0 4",
        "interface Serial1/1", "exec-timeout 5 0", "server-private 1.1.1.1 key x", "network-object host 1.1.1.1", "aaa authorization console", "aaa accounting exec default",
        "aaa authentication login X group tacacs+ local", "no cdp run", "name bar", "mtu 1500", "object network X", "service instance 1 ethernet", "vpc domain 3"]


def config(r, syn, cd):
    out = []
    for _ in range(r.randint(1, 9)):
        x = r.random()
        if x < .55:
            out.append(r.choice(LINES[syn]))
        elif x < .75:
            out.append(r.choice(NEAR))
        elif x < .85:
            out.append(r.choice(cd) + r.choice([" ", "", " interface Vlan1", "hostname x"]))
            continue
        else:
            b = gen.body(r, 0)
            if b.startswith(("ip route", "ipv6 route", "aaa group")) or syn == "asa" and b.startswith(("name", "access-list")):
                b = "hostname " + b
            out.append(b)
        if r.random() < .6:
            step = r.choice([1, 1, 2, 3])
            for ch in r.sample(KIDS, r.randint(1, 4)):
                out.append(" " * step + ch)
                if r.random() < .2:
                    out.append(" " * (step * 2) + r.choice(KIDS))
                if r.random() < .1:
                    out.append(" " * step + r.choice(cd))
        if r.random() < .08:
            out.append(r.choice(["", "  "]))
    if r.random() < .1:
        r.shuffle(out)
    return [l for l in out if gen.safe(l)]


def wordy(l):
    return l.split()


def abbreviations(r, syn, lines):
    out = []
    names = [l.split()[1:] for l in lines if l.startswith("interface ")]
    for _ in range(3):
        if not names or r.random() < .15:
            out.append(r.choice(["Gi0/1", "Vlan 10", "nope", "Se 1/0", "e1/1", "Lo0"]))
            continue
        w = r.choice(names)
        ty = "".join(ch for i, ch in enumerate(w[0]) if w[0][:i + 1].replace("-", "a").isalpha())
        nr = w[0][len(ty):] or (w[1] if len(w) > 1 else "")
        ty = ty[:r.randint(1, len(ty))]
        y = r.random()
        if y < .15:
            nr = nr[:-1]
        elif y < .25:
            nr = nr.split(".")[0]
        out.append(r.choice([ty, ty.lower(), ty.upper()]) + r.choice(["", "", " ", "  " if r.random() < .2 else ""]) + nr)
    return out
