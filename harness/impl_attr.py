"""Observed attributes of the objects of factory parses."""
import ipaddress
from impl import kind, guard, enc, edited, NONE
from ciscoconfparse import CiscoConfParse
from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, CiscoRange


def net(o):
    return "" if o.empty else "%s/%d" % (o.ip, o.prefixlen)


def netw(o):
    return str(o) if isinstance(o, ipaddress.IPv4Network) else "" if o.empty else str(o.network)


def ms(x):
    v = x * 1000
    return int(round(v)) if abs(v - round(v)) < 1e-6 else "fraction %r" % v


def runs(x):
    if x == 0 and not isinstance(x, CiscoRange):
        return [[0, 0]]
    v = x.as_list(result_type=int)
    out = []
    for n in v:
        if out and n == out[-1][1] + 1:
            out[-1][1] = n
        else:
            out.append([n, n])
    return out


def helpers(v):
    return [[d["addr"], d["vrf"], d["global"]] for d in v]


def tracking(v):
    if any(a != a or hash(a) != hash(a) or (a == b) != (b == a) or (a == b) == (a != b) or a == b and hash(a) != hash(b) for a in v for b in v):
        return "a member differs from itself"
    # the third entry: the first member equal to this one
    return [[t.interface_name if t.interface_name == t.name == t.interface else "names differ", t.decrement,
             next(k for k, u in enumerate(v, 1) if t == u)] for t in v]


def hsrp(v):
    # a group without an IPv4 address: the documented error
    return [[[n, "" if n == "ipv4" and guard(lambda: g.ipv4) == {"exc": "ValueError"} else guard(lambda: HCONV.get(n, lambda v: v)(getattr(g, n)))] for n in HSRP] for g in v]


CONV = {"ipv4_addr_object": net, "ip": net, "ipv4": net, "ip_network_object": netw, "ipv4_network_object": netw, "ipv6_addr_object": net, "ipv4_standby_addr_object": net,
        "ip_secondary_addresses": sorted, "ip_secondary_networks": sorted, "manual_carrierdelay": ms, "hsrp_hello_timer": ms, "hsrp_hold_timer": ms,
        "trunk_vlans_allowed": runs, "ip_helper_addresses": helpers, "hsrp_interfaces": hsrp, "ordinal_list": list, "network_object": net,
        "line_range": list, "parse_exectimeout": list, "server_private": sorted,
        }
HCONV = {"hello_timer": ms, "hold_timer": ms, "interface_tracking": tracking}
HSRP = "group ipv4 ipv6 has_ipv6 priority preempt preempt_delay hello_timer hold_timer version use_bia authentication_md5_keychain has_authentication_md5 has_hsrp_track interface_tracking".split()
INTF = """description manual_bandwidth manual_delay manual_holdqueue_out manual_holdqueue_in manual_encapsulation has_mpls has_ip_secondary has_manual_speed
manual_speed has_manual_duplex manual_duplex has_manual_clock_rate manual_clock_rate manual_mtu has_manual_mtu manual_mpls_mtu has_manual_mpls_mtu manual_ip_mtu
has_manual_ip_mtu is_shutdown vrf has_vrf ipv4_netmask xconnect_vc has_xconnect has_manual_disable_cdp intf_in_portchannel portchannel_number hsrp_group hsrp_track
has_hsrp_track has_hsrp_usebia has_hsrp_preempt hsrp_authentication_md5_keychain has_hsrp_authentication_md5 mac_accessgroup_in mac_accessgroup_out ipv4_accessgroup_in
ip_accessgroup_in ipv4_accessgroup_out ip_accessgroup_out has_ip_accessgroup_in has_ipv4_accessgroup_in has_ip_accessgroup_out has_ipv4_accessgroup_out
has_no_icmp_unreachables has_no_icmp_redirects has_no_ip_proxyarp has_ip_pim_dense_mode has_ip_pim_sparse_mode has_ip_pim_sparsedense_mode hsrp_ip_addr
name port_type interface_number subinterface_number port ordinal_list is_intf is_subintf is_virtual_intf is_loopback_intf is_ethernet_intf is_portchannel_intf
ipv4_addr ip_addr ipv4_addr_object ip ipv4 ipv4_masklength has_no_ipv4 ip_network_object ipv4_network_object ip_secondary_addresses ip_secondary_networks
ipv6_addr ipv6_addr_object ipv6_masklength has_ip_helper_addresses ip_helper_addresses manual_carrierdelay has_manual_carrierdelay has_autonegotiation
manual_arp_timeout has_ip_hsrp hsrp_priority hsrp_hello_timer hsrp_hold_timer has_mac_accessgroup_in has_mac_accessgroup_out hsrp_interfaces""".split()
SWITCH = """is_switchport has_manual_switch_access has_manual_switch_trunk manual_switch_trunk_encap has_manual_switch_trunk_encap access_vlan native_vlan
has_switch_portsecurity has_switch_stormcontrol has_dtp trunk_vlans_allowed""".split()
ROUTE = "address_family vrf network netmask masklen network_object next_hop_interface next_hop_addr nexthop_str admin_distance multicast route_name tracking_object_name tag nexthop_vrf permanent global_next_hop".split()
ASAINTF = """description manual_delay has_manual_speed has_manual_duplex is_shutdown ipv4_addr ip_addr ipv4_netmask ipv4_standby_addr ipv6_standby_addr is_switchport
has_manual_switch_access has_manual_switch_trunk access_vlan name port_type is_intf is_subintf is_ethernet_intf is_loopback_intf ordinal_list port ipv4_addr_object ip ipv4
has_no_ipv4 ipv4_masklength ipv4_standby_addr_object ip_network_object ipv4_network_object ipv6_addr_object ipv6_addr ipv6_masklength has_autonegotiation has_ip_pim_sparse_mode""".split()
ACL = "result_dict.acl_name result_dict.action result_dict.remark result_dict.ip_protocol result_dict.ip_protocol_object result_dict.src_addr_method result_dict.dst_addr_method result_dict.disable result_dict.time_range result_dict.log result_dict.log_level result_dict.log_interval".split()
NX = """description manual_speed has_manual_speed manual_duplex has_manual_duplex manual_bandwidth manual_delay manual_encapsulation has_manual_clock_rate manual_clock_rate manual_mtu
has_manual_mtu manual_mpls_mtu has_manual_mpls_mtu manual_ip_mtu has_manual_ip_mtu is_shutdown xconnect_vc has_xconnect has_manual_disable_cdp intf_in_portchannel portchannel_number
mac_accessgroup_in mac_accessgroup_out ipv4_accessgroup_in ip_accessgroup_in ipv4_accessgroup_out ip_accessgroup_out has_ip_accessgroup_in has_ipv4_accessgroup_in has_ip_accessgroup_out
has_ipv4_accessgroup_out has_mpls vrf has_vrf name port port_type interface_number subinterface_number ordinal_list is_intf is_subintf is_virtual_intf is_loopback_intf is_ethernet_intf
is_portchannel_intf ipv4_addr ip_addr ipv4_addr_object ip ipv4 ip_network_object ipv4_network_object has_no_ipv4 ipv4_masklength ipv4_netmask has_autonegotiation manual_carrierdelay""".split()
NXOS = NX + """manual_beacon vpc is_vpc_peerlink fex_associate_chassis_id manual_stp_link_type manual_stp_port_type has_hsrp_usebia is_switchport has_manual_switch_access has_manual_switch_trunk
has_manual_switch_fex_fabric manual_switch_trunk_encap has_manual_switch_trunk_encap access_vlan native_vlan has_switch_portsecurity has_switch_stormcontrol has_dtp trunk_vlans_allowed
hsrp_group hsrp_ip_addr has_ip_hsrp hsrp_priority hsrp_hello_timer hsrp_hold_timer hsrp_track has_hsrp_track has_hsrp_preempt ip_helper_addresses has_ip_helper_addresses has_mac_accessgroup_in
has_mac_accessgroup_out has_no_icmp_unreachables has_no_icmp_redirects has_no_ip_proxyarp has_ip_pim_dense_mode has_ip_pim_sparse_mode has_ip_pim_sparsedense_mode manual_arp_timeout""".split()
XR = NX + ["manual_holdqueue_out", "manual_holdqueue_in"]
VPC = """vpc_role_priority vpc_system_priority vpc_system_mac has_peer_config_check_bypass has_peer_switch has_layer3_peer_router has_peer_gateway has_auto_recovery
vpc_auto_recovery_reload_delay has_ip_arp_synchronize vpc_domain_id""".split() + ["vpc_peer_keepalive." + k for k in "destination hold-timeout interval timeout precedence source tos tos-byte udp-port vrf".split()]
NXROUTE = "address_family network netmask masklen network_object next_hop_interface next_hop_addr nexthop_str admin_distance route_name tracking_object_name tag".split()
JUNOS = "is_intf is_subintf name intf_name is_switchport".split()
WHAT = {"nxos-intf": (("NXOSIntfLine",), NXOS), "xr-intf": (("IOSXRIntfLine",), XR), "nxos-vpc": (("NXOSvPCLine",), VPC), "nxos-route": (("NXOSRouteLine",), NXROUTE),
        "asa-intf": (("ASAIntfLine",), ASAINTF), "asa-acl": (("ASAAclLine",), ACL), "asa-host": (("ASAHostnameLine",), ["hostname"]),
        "ios-route": (("IOSRouteLine",), ROUTE), "ios-intf": (("IOSIntfLine",), INTF), "ios-switch": (("IOSIntfLine",), SWITCH)}


# class (without the syntax) -> kind of line, attributes
OTHER = {"HostnameLine": ("Hostname", "hostname"), "AccessLine": ("Access", "is_accessline name line_range parse_exectimeout"),
         "IntfGlobal": ("Global", "has_cdp_disabled has_intf_logging_def has_stp_portfast_def has_stp_portfast_bpduguard_def has_stp_mode_rapidpvst"),
         "AaaGroupServerLine": ("AaaGroup", "protocol group vrf source_interface server_private"), "AaaLoginAuthenticationLine": ("AaaLogin", "list_name group methods"),
         "AaaEnableAuthenticationLine": ("AaaEnable", "list_name group methods"), "AaaCommandsAuthorizationLine": ("AaaCommands", "level list_name group methods"),
         "AaaConsoleAuthorizationLine": ("AaaConsole", "level list_name group methods"), "AaaCommandsAccountingLine": ("AcctCommands", "level list_name record_type group"),
         "AaaExecAccountingLine": ("AcctExec", "list_name record_type group")}


def other(o):
    """kind and attributes of a hostname, access, global or AAA line; None for the other lines"""
    n = type(o).__name__
    k = OTHER.get(n[3:] if n.startswith("IOS") else n[4:] if n.startswith("NXOS") else "")
    if k is None or o.indent:
        return None
    a = {m: guard(lambda: CONV[m](getattr(o, m)) if m in CONV else getattr(o, m)) for m in k[1].split()}
    a["kind"] = k[0]
    if k[0] == "Access":
        a["exec_minutes"], a["exec_seconds"] = guard(o.manual_exectimeout_minutes), guard(o.manual_exectimeout_seconds)
        r = guard(lambda: o.range_str)
        if isinstance(a["line_range"], list) and r != " ".join(str(x) for x in a["line_range"]):
            a["line_range"] = "range_str differs: %s" % (r,)
    if isinstance(a.get("server_private"), dict):
        a["server_private"] = ["exc:" + a["server_private"]["exc"]]
    return a


def value(o, n):
    """an attribute, or "dict.key" of an attribute that is a dictionary"""
    return CONV.get(n, lambda v: v)(getattr(o, n)) if "." not in n else enc(getattr(o, n.split(".")[0])[n.split(".")[1]])


def mark(v):
    return NONE if v is None else v


def attrs(o, names):
    return {n.split(".")[-1]: mark(guard(value, o, n)) for n in names}


def nx(a):
    """a dynamic address is reported by an exception; without an address an interface is in no subnet"""
    for n in a:
        a[n] = "dynamic" if a[n] == {"exc": "DynamicAddressException"} else "" if a[n] == "0.0.0.1/32" else a[n]
    a["in_ipv4_subnet"] = [bool(x) if x in (NONE, True, False) and x != NONE else False if x == NONE else x for x in a["in_ipv4_subnet"]]
    a["in_ipv4_subnets"] = False if a["in_ipv4_subnets"] == NONE else a["in_ipv4_subnets"]


def nxroute(a, r):
    """numbers of routes as numbers, however they are spelled"""
    a["masklen"] = int(a["masklen"]) if str(a["masklen"]).isdigit() else a["masklen"]
    a["admin_distance"] = str(a["admin_distance"]) if isinstance(a["admin_distance"], int) else a["admin_distance"]
    a["tracking_object_name"] = "" if a["tracking_object_name"] == NONE else a["tracking_object_name"]
    if not isinstance(r, str):
        a["network"] = r


@kind("attr")
def k_attr(case):
    try:
        return look(edited(case, lambda p: look(p, case)), case)
    except Exception as e:
        return {"exc": type(e).__name__}


def look(p, case):
    objs = list(p.objs)
    if case["what"] in ("ios-lines", "nxos-lines"):
        return {"n": len(objs), "objs": [{"line": i, "attrs": a} for i, o in enumerate(objs) for a in [other(o)] if a is not None]}
    if case["what"] == "junos":
        return {"n": len(objs), "objs": [{"line": i, "attrs": attrs(o, JUNOS)} for i, o in enumerate(objs) if o.text.strip() and not o.text.strip().startswith("#")]}
    classes, names = WHAT[case["what"]]
    out = []
    for i, o in enumerate(objs):
        if type(o).__name__ in classes and (o.indent == 0):
            a = attrs(o, names)
            if case["what"].endswith("-intf"):
                nets = [IPv4Obj(x) for x in case["nets"]]
                a["in_ipv4_subnet"] = [mark(guard(o.in_ipv4_subnet, n)) for n in nets]
                a["in_ipv4_subnets"] = mark(guard(o.in_ipv4_subnets, nets))
                if "abbr" in case:
                    a["is_abbreviated_as"] = [mark(guard(o.is_abbreviated_as, v)) for v in case["abbr"]]
                if case["what"] == "asa-intf":
                    for n in ("ip_network_object", "ipv4_network_object"):
                        a[n] = "refused" if a[n] == {"exc": "ValueError"} else a[n]
                if case["what"][:2] in ("nx", "xr"):
                    nx(a)
                r = guard(repr, o)
                if not isinstance(r, str):
                    a["name"] = r
            elif case["what"] == "nxos-route":
                nxroute(a, guard(repr, o))
            out.append({"line": i, "attrs": a})
    return {"n": len(objs), "objs": out}


@kind("trunk")
def k_trunk(case):
    """what trunk_vlans_allowed makes of sequences of allowed-vlan commands"""
    out = []
    for seq in case["seqs"]:
        try:
            p = CiscoConfParse(["interface GigabitEthernet0/1", " switchport mode trunk"] + [" switchport trunk allowed vlan " + c for c in seq], syntax="ios", factory=True)
            out.append(runs(list(p.objs)[0].trunk_vlans_allowed))
        except Exception as e:
            out.append("exc:" + type(e).__name__)
    return out


@kind("stanza")
def k_stanza(case):
    """attributes of one ios interface with the given commands"""
    try:
        p = CiscoConfParse(["interface " + case["name"]] + [" " + c for c in case["cmds"]], syntax="ios", factory=True)
        return attrs(list(p.objs)[0], INTF + SWITCH)
    except Exception as e:
        return {"exc": type(e).__name__}


@kind("lines")
def k_lines(case):
    """attributes of single lines, each parsed on its own"""
    out = []
    if case["what"] == "junos":
        return {"n": len(objs), "objs": [{"line": i, "attrs": attrs(o, JUNOS)} for i, o in enumerate(objs) if o.text.strip() and not o.text.strip().startswith("#")]}
    classes, names = WHAT[case["what"]]
    for l in case["lines"]:
        try:
            out.append(attrs(list(CiscoConfParse([l], syntax=case["syn"], factory=True).objs)[0], names))
        except Exception as e:
            out.append({"exc": type(e).__name__})
    return out
