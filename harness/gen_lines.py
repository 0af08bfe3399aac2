"""IOS and NX-OS configurations of the lines that are neither interfaces nor routes."""
from gen_attr import a4, word, n, odd

LISTS = ["default", "CONSOLE", "VTY", "console", "group1", "A-1"]
GROUPS = ["tacacs+", "radius", "TACACS_01", "G", "ldap", "ISE-1"]
METHODS = ["local", "local-case", "enable", "none", "line", "krb5", "if-authenticated", "group radius", "group tacacs+"]
own = lambda r, names: odd(r) if r.random() < .15 else r.choice(names)
sp = lambda r: r.choice([" ", " ", " ", "  "])
some = lambda r, xs, lo, hi: [r.choice(xs) for _ in range(r.randint(lo, hi))]


def methods(r):
    m = some(r, METHODS, 0, 3)
    if r.random() < .75:
        m = ["group" + sp(r) + own(r, GROUPS)] + m
    return "".join(sp(r) + x for x in m) or " local"


def records(r):
    x = r.choice(["start-stop", "stop-only", "none"])
    return x if r.random() < .15 else x + r.choice(["", "", "", " broadcast"]) + sp(r) + "group" + sp(r) + own(r, GROUPS) + r.choice(["", "", " group radius"])


def name(r):
    return r.choice(["hostname ", "hostname  "]) + r.choice(["R1", "core-sw.lab", "line", "Edge_01", "hostname", "x", odd(r)])


def access(r, nx):
    h = r.choice(["line con 0", "line vty 0 4", "line aux 0", "line vty 5 15", "line 33", "line 1 48", "line vty 0  4", "line tty 10 20", "line vty 3", "line console", "line vty", "line vty 0 4 "])
    ks = some(r, ["exec-timeout %d" % r.choice([0, 5, 30, 35791]), "exec-timeout %d %d" % (r.choice([0, 5, 120]), r.choice([0, 1, 30, 59])), "exec-timeout  9   8", "transport input ssh", "login local", "no exec-timeout",
                  "session-timeout 7 7", "access-class 10 in", "logging synchronous", "password exec-timeout", "stopbits 1", "no exec", "login authentication VTY", "width 511", "session-limit 5"], 0, 6)
    return [h] + [("  " if nx else " ") + k for k in ks]


def server(r, nx):
    ks = []
    for _ in range(r.randint(0, 6)):
        ks.append(r.choice([lambda: "server-private " + r.choice([a4(r), a4(r), "2001:db8::1", "tac1.lab"]) + r.choice([" key cisco", " timeout 5 key 7 13061E", "", " single-connection", " "]),
                            lambda: "server " + a4(r), lambda: r.choice(["ip vrf forwarding ", "vrf forwarding ", "vrf  forwarding  "]) + word(r), lambda: "no ip vrf forwarding X", lambda: "use-vrf management",
                            lambda: "ip tacacs source-interface " + r.choice(["FastEthernet0/48", "Vlan10", "Loopback0", "GigabitEthernet0/0.100", "Vlan 7"]), lambda: "ip radius source-interface Vlan9", lambda: "no ip tacacs source-interface Vlan8",
                            lambda: "deadtime 5", lambda: "server name T1", lambda: "source-interface mgmt0"])())
    return ["aaa group server %s %s%s" % (r.choice(["tacacs+", "radius", "ldap"]), own(r, GROUPS), r.choice(["", "", " "]))] + [("  " if nx else " ") + k for k in ks]


def config(r, nx):
    out = []
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < .08:
            out.append(name(r))
        elif x < .3:
            out += access(r, nx)
        elif x < .38:
            out.append(r.choice(["no cdp run", "logging event link-status global", "spanning-tree portfast default", "spanning-tree portfast bpduguard default", "no  cdp  run", "no cdp run ", "cdp run",
                                 "spanning-tree mode rapid-pvst", "logging event link-status default", "spanning-tree portfast bpdufilter default", "logging buffered 9999"]))
        elif x < .62:
            out.append("aaa authentication %s%s%s" % (r.choice(["login ", "enable ", "login  "]) if not nx else r.choice(["login ", "enable "]), own(r, LISTS), methods(r)))
        elif x < .7:
            out.append("aaa authorization %s %s%s%s%s" % (r.choice(["commands", "commands", "console"]), r.choice([0, 1, 15]), sp(r), own(r, LISTS), methods(r)))
        elif x < .82:
            out.append("aaa accounting " + r.choice(["exec ", "commands %d " % r.choice([0, 1, 15])]) + own(r, LISTS) + sp(r) + records(r))
        elif x < .95:
            out += server(r, nx)
        else:
            out.append(r.choice(["aaa new-model", "aaa session-id common", "!", "banner login ^x^", "interface Vlan1", "logging host 1.1.1.1", "aaa authentication dot1x default group radius", "aaa accounting network default start-stop group radius"]))
    return out
