------------------------------- MODULE NxLines ------------------------------
(* What NX-OS and IOS-XR lines say: interfaces, switch ports, HSRP blocks, vPC
   domains and static routes. The shape of the tables is explained in Attr. *)
EXTENDS Attr, Route

DYN == "dynamic"
COMMON_TABLE == <<
  <<"description", "str", <<<<"description", "<rest>">>>>, <<2>>, "">>,
  <<"manual_speed", "int", <<<<"speed", "#">>>>, <<2>>, 0>>,
  <<"has_manual_speed", "bool", <<<<"speed", "#">>>>, <<>>, FALSE>>,
  <<"manual_duplex", "str", <<<<"duplex", "<rest>">>>>, <<2>>, "">>,
  <<"has_manual_duplex", "bool", <<<<"duplex", "<rest>">>>>, <<>>, FALSE>>,
  <<"manual_bandwidth", "int", <<<<"bandwidth", "#">>>>, <<2>>, 0>>,
  <<"manual_delay", "int", <<<<"delay", "#">>>>, <<2>>, 0>>,
  <<"manual_encapsulation", "str", <<<<"encapsulation", "*", "<any>">>>>, <<2>>, "">>,
  <<"has_manual_clock_rate", "bool", <<<<"clock", "rate", "#">>>>, <<>>, FALSE>>,
  <<"manual_clock_rate", "int", <<<<"clock", "rate", "#">>>>, <<3>>, 0>>,
  <<"manual_mtu", "int", <<<<"mtu", "#">>>>, <<2>>, 0>>,
  <<"has_manual_mtu", "bool", <<<<"mtu", "#">>>>, <<>>, FALSE>>,
  <<"manual_mpls_mtu", "int", <<<<"mpls", "mtu", "#">>>>, <<3>>, 0>>,
  <<"has_manual_mpls_mtu", "bool", <<<<"mpls", "mtu", "#">>>>, <<>>, FALSE>>,
  <<"manual_ip_mtu", "int", <<<<"ip", "mtu", "#">>>>, <<3>>, 0>>,
  <<"has_manual_ip_mtu", "bool", <<<<"ip", "mtu", "#">>>>, <<>>, FALSE>>,
  <<"is_shutdown", "bool", <<<<"^shut">>>>, <<>>, FALSE>>,
  <<"xconnect_vc", "int", <<<<"xconnect", "*", "#", "*", "<any>">>>>, <<3>>, 0>>,
  <<"has_xconnect", "bool", <<<<"xconnect", "*", "#", "*", "<any>">>>>, <<>>, FALSE>>,
  <<"has_manual_disable_cdp", "bool", <<<<"no", "cdp", "enable">>>>, <<>>, FALSE>>,
  <<"intf_in_portchannel", "bool", <<<<"channel-group", "#", "<any>">>>>, <<>>, FALSE>>,
  <<"portchannel_number", "int", <<<<"channel-group", "#", "<any>">>>>, <<2>>, -1>>,
  <<"mac_accessgroup_in", "str", <<<<"mac", "access-group", "*", "in">>>>, <<3>>, "">>,
  <<"mac_accessgroup_out", "str", <<<<"mac", "access-group", "*", "out">>>>, <<3>>, "">>,
  <<"ipv4_accessgroup_in", "str", <<<<"ip", "access-group", "*", "in">>>>, <<3>>, "">>,
  <<"ip_accessgroup_in", "str", <<<<"ip", "access-group", "*", "in">>>>, <<3>>, "">>,
  <<"ipv4_accessgroup_out", "str", <<<<"ip", "access-group", "*", "out">>>>, <<3>>, "">>,
  <<"ip_accessgroup_out", "str", <<<<"ip", "access-group", "*", "out">>>>, <<3>>, "">>,
  <<"has_ip_accessgroup_in", "bool", <<<<"ip", "access-group", "*", "in">>>>, <<>>, FALSE>>,
  <<"has_ipv4_accessgroup_in", "bool", <<<<"ip", "access-group", "*", "in">>>>, <<>>, FALSE>>,
  <<"has_ip_accessgroup_out", "bool", <<<<"ip", "access-group", "*", "out">>>>, <<>>, FALSE>>,
  <<"has_ipv4_accessgroup_out", "bool", <<<<"ip", "access-group", "*", "out">>>>, <<>>, FALSE>>
>>
NX_TABLE == COMMON_TABLE \o <<
  <<"manual_beacon", "bool", <<<<"beacon">>>>, <<>>, FALSE>>,
  <<"has_mpls", "bool", <<<<"mpls", "ip", "forwarding">>>>, <<>>, FALSE>>,
  <<"vrf", "str", <<<<"vrf", "member", "*">>>>, <<3>>, "">>,
  <<"has_vrf", "bool", <<<<"vrf", "member", "*">>>>, <<>>, FALSE>>,
  <<"vpc", "int", <<<<"vpc", "#">>>>, <<2>>, 0>>,
  <<"is_vpc_peerlink", "bool", <<<<"vpc", "peer-link">>>>, <<>>, FALSE>>,
  <<"fex_associate_chassis_id", "int", <<<<"fex", "associate", "#">>>>, <<3>>, 0>>,
  <<"manual_stp_link_type", "str", <<<<"spanning-tree", "link-type", "<rest>">>>>, <<3>>, "">>,
  <<"manual_stp_port_type", "str", <<<<"spanning-tree", "port", "type", "<rest>">>>>, <<4>>, "">>,
  <<"has_hsrp_usebia", "bool", <<<<"hsrp", "use-bia">>>>, <<>>, FALSE>>
>>
XR_TABLE == COMMON_TABLE \o <<
  <<"manual_holdqueue_out", "int", <<<<"hold-queue", "#", "out">>>>, <<2>>, 0>>,
  <<"manual_holdqueue_in", "int", <<<<"hold-queue", "#", "in">>>>, <<2>>, 0>>,
  <<"has_mpls", "bool", <<<<"mpls", "ip">>>>, <<>>, FALSE>>,
  <<"vrf", "str", <<<<"vrf", "*">>>>, <<2>>, "">>,
  <<"has_vrf", "bool", <<<<"vrf", "*">>>>, <<>>, FALSE>>,
  <<"ipv4_netmask", "str", <<<<"ipv4", "address", "quad", "quad">>>>, <<4>>, "">>
>>
(* reported for interfaces with a configured address only *)
NXIP_TABLE == <<
  <<"has_no_icmp_unreachables", "bool", <<<<"no", "ip", "unreachables">>>>, <<>>, FALSE>>,
  <<"has_no_icmp_redirects", "bool", <<<<"no", "ip", "redirects">>>>, <<>>, FALSE>>,
  <<"has_no_ip_proxyarp", "bool", <<<<"no", "ip", "proxy-arp">>>>, <<>>, FALSE>>,
  <<"has_ip_pim_dense_mode", "bool", <<<<"ip", "pim", "dense-mode">>>>, <<>>, FALSE>>,
  <<"has_ip_pim_sparse_mode", "bool", <<<<"ip", "pim", "sparse-mode">>>>, <<>>, FALSE>>,
  <<"has_ip_pim_sparsedense_mode", "bool", <<<<"ip", "pim", "sparse-dense-mode">>>>, <<>>, FALSE>>,
  <<"manual_arp_timeout", "int", <<<<"arp", "timeout", "#">>>>, <<3>>, 0>>
>>
IfAddr(has, tb, L) == IF has THEN Table(tb, L) ELSE [i \in 1..Len(tb) |-> <<tb[i][1], IF tb[i][1] = "manual_arp_timeout" THEN -1 ELSE tb[i][5]>>]

(* names: like those of ios, but the numbers of the port as they are, and up to five of them *)
Numbers(t) == LET ps == SplitChar(Chars(NameFacts(t)[3][2]), "/") IN [i \in 1..Len(ps) |-> NatOf(ps[i])]
NoSpace(s) == Str(SelectSeq(Chars(s), LAMBDA ch : ch # " "))
NxName(t, nx) ==
  LET f == NameFacts(t) w == LineOf(t).w IN
  << <<"name", w[2]>>, f[2], f[3], f[4], f[5], <<"ordinal_list", Numbers(t)>>, f[7], f[8], f[9], f[10],
     <<"is_ethernet_intf", f[11][2] \/ (nx /\ StartsWith(Chars(f[2][2]), Chars("mgmt")))>>, f[12] >>

(* ---------------------------- addresses ---------------------------- *)
Slash(s) == LET ps == SplitChar(Chars(s), "/") IN Len(ps) = 2 /\ IsQuad(Str(ps[1])) /\ IsDigits(ps[2])
NxAddrLines(L) == {i \in 1..Len(L) : Len(L[i].w) = 3 /\ L[i].w[1] = "ip" /\ L[i].w[2] = "address" /\ Slash(L[i].w[3])}
XRADDR == <<<<"ipv4", "address", "quad", "quad">>>>
XrAddrLines(L) == Hits(XRADDR, L)
InNet(x, y) == x.ok /\ y.ok /\ IP!Contains_([a |-> y.a, p |-> y.p], [a |-> x.a, p |-> x.p])
AddrAttrs(dyn, has, x, text, nets) ==
  LET N == [i \in 1..Len(nets) |-> ReadV4(Chars(nets[i]))] IN
  IF dyn THEN << <<"ipv4_addr", DYN>>, <<"ip_addr", DYN>>, <<"ipv4_addr_object", DYN>>, <<"ip", DYN>>, <<"ipv4", DYN>>, <<"ip_network_object", DYN>>, <<"ipv4_network_object", DYN>> >>
  ELSE << <<"ipv4_addr", text>>, <<"ip_addr", text>>, <<"ipv4_addr_object", ShowNet4(x)>>, <<"ip", ShowNet4(x)>>, <<"ipv4", ShowNet4(x)>>,
          <<"ip_network_object", Net4Of(x)>>, <<"ipv4_network_object", Net4Of(x)>>, <<"has_no_ipv4", ~x.ok>>, <<"ipv4_masklength", IF x.ok THEN x.p ELSE 0>>,
          <<"in_ipv4_subnet", [i \in 1..Len(N) |-> InNet(x, N[i])]>>, <<"in_ipv4_subnets", \E i \in 1..Len(N) : InNet(x, N[i])>> >>

(* ---------------------------- NX-OS switch ports ---------------------------- *)
NXSWITCH_TABLE == <<
  <<"is_switchport", "bool", <<<<"switchport", "<any>">>>>, <<>>, FALSE>>,
  <<"has_manual_switch_access", "bool", <<<<"switchport", "mode", "access">>>>, <<>>, FALSE>>,
  <<"has_manual_switch_trunk", "bool", <<<<"switchport", "mode", "trunk">>>>, <<>>, FALSE>>,
  <<"has_manual_switch_fex_fabric", "bool", <<<<"switchport", "mode", "fex-fabric">>>>, <<>>, FALSE>>,
  <<"manual_switch_trunk_encap", "str", <<<<"switchport", "trunk", "encapsulation", "*">>>>, <<4>>, "">>,
  <<"has_manual_switch_trunk_encap", "bool", <<<<"switchport", "trunk", "encapsulation", "*">>>>, <<>>, FALSE>>
>>
(* except is "all but these"; a list replaces what was allowed *)
NxApply1(V, c) == IF Len(c) = 2 /\ c[1] = "except" THEN (1..VMAX) \ VlanList(c[2]) ELSE Apply1(V, c)
RECURSIVE NxApplyAll(_, _)
NxApplyAll(V, cs) == IF cs = <<>> THEN V ELSE NxApplyAll(NxApply1(V, Head(cs)), Tail(cs))
NxSwitch(L) ==
  LET sw == IsSwitch(L) IN
  Table(NXSWITCH_TABLE, L)
  \o << <<"access_vlan", Int1(<<<<"switchport", "access", "vlan", "#">>>>, <<4>>, IF sw THEN 1 ELSE 0, L)>>,
        <<"native_vlan", Int1(<<<<"switchport", "trunk", "native", "vlan", "#">>>>, <<5>>, IF sw THEN 1 ELSE 0, L)>>,
        <<"has_switch_portsecurity", sw /\ Has(<<<<"switchport", "port-security">>>>, L)>>,
        <<"has_switch_stormcontrol", sw /\ Has(<<<<"storm-control", "<any>">>>>, L)>>,
        <<"has_dtp", sw /\ ~Has(<<<<"switchport", "^noneg">>>>, L)>>,
        <<"trunk_vlans_allowed", IF sw /\ ~Has(<<<<"switchport", "mode", "access">>>>, L) THEN RunList(NxApplyAll(1..VMAX, TrunkCmds(L))) ELSE <<<<0, 0>>>>>> >>

(* ---------------------------- HSRP ---------------------------- *)
(* B: the children of the interface, each with its own children. One group per interface. *)
HsrpBlocks(B) == SelectSeq(B, LAMBDA b : Fits(<<"hsrp", "#", "<any>">>, b.l.w))
Timers2(w, k) == LET v == IF w[2] = "msec" THEN IF k = 1 THEN w[3] ELSE w[Len(w)] ELSE w[k + 1] IN
                 IF w[2] = "msec" THEN NatOf(Chars(v)) ELSE 1000 * NatOf(Chars(v))
NxHsrp(B, has) ==
  LET H == HsrpBlocks(B)
      S == IF H = <<>> THEN <<>> ELSE H[1].sub
      addr == IF has THEN Str1(<<<<"ip", "*", "<any>">>>>, <<2>>, S) ELSE ""
      tm == SelectSeq(S, LAMBDA l : Fits(<<"timers", "#", "#">>, l.w) \/ Fits(<<"timers", "msec", "#", "msec", "#">>, l.w))
  IN << <<"hsrp_group", IF H = <<>> THEN "" ELSE H[1].l.w[2]>>,
        <<"hsrp_ip_addr", addr>>, <<"has_ip_hsrp", addr # "">>,
        <<"hsrp_priority", IF addr = "" THEN 0 ELSE Int1(<<<<"priority", "#", "<any>">>>>, <<2>>, 100, S)>>,
        <<"hsrp_hello_timer", IF tm = <<>> THEN 0 ELSE Timers2(tm[1].w, 1)>>,
        <<"hsrp_hold_timer", IF tm = <<>> THEN 0 ELSE Timers2(tm[1].w, 2)>>,
        <<"hsrp_track", Str1(<<<<"track", "#", "<any>">>>>, <<2>>, S)>>,
        <<"has_hsrp_track", Has(<<<<"track", "#", "<any>">>>>, S)>>,
        <<"has_hsrp_preempt", Has(<<<<"preempt", "<any>">>>>, S)>> >>

NxHelpers(L) == LET H == SelectSeq(L, LAMBDA l : Fits(<<"ip", "dhcp", "relay", "address", "quad">>, l.w)) IN
                [i \in 1..Len(H) |-> <<H[i].w[5], Str1(<<<<"vrf", "member", "*">>>>, <<3>>, L), FALSE>>]

NxIntf(t, B, nets) ==
  LET L == [i \in 1..Len(B) |-> B[i].l]
      A == NxAddrLines(L)
      dyn == Has(<<<<"ip", "address", "dhcp">>>>, L)
      has == A # {}
      text == IF has THEN L[MinOf(A)].w[3] ELSE ""
      x == IF has THEN ReadV4(Chars(text)) ELSE BAD_
      autoneg == <<"has_autonegotiation", NxName(t, TRUE)[11][2] /\ ~Has(<<<<"speed", "#">>, <<"duplex", "<rest>">>>>, L)>>
  IN Table(NX_TABLE, L) \o NxName(t, TRUE) \o NxSwitch(L) \o AddrAttrs(dyn, has, x, SlashPart(text, 1), nets)
     \o <<autoneg, <<"ip_helper_addresses", NxHelpers(L)>>, <<"has_ip_helper_addresses", NxHelpers(L) # <<>>>>,
          <<"manual_carrierdelay", LET s == Int1(<<<<"carrier-delay", "#">>>>, <<2>>, 0, L) IN IF s > 0 THEN 1000 * s ELSE Int1(<<<<"carrier-delay", "msec", "#">>>>, <<3>>, 0, L)>>,
          <<"has_mac_accessgroup_in", IsSwitch(L) /\ Has(<<<<"mac", "access-group", "*", "in">>>>, L)>>,
          <<"has_mac_accessgroup_out", IsSwitch(L) /\ Has(<<<<"mac", "access-group", "*", "out">>>>, L)>> >>
     \o (IF dyn THEN <<>> ELSE IfAddr(has, NXIP_TABLE, L) \o NxHsrp(B, has) \o <<<<"ipv4_netmask", IF x.ok THEN ShowV4(IP!Netmask(4, x.p)) ELSE "">>>>)

XrIntf(t, B, nets) ==
  LET L == [i \in 1..Len(B) |-> B[i].l]
      A == XrAddrLines(L)
      dyn == Has(<<<<"ipv4", "address", "dhcp">>>>, L)
      has == A # {}
      l == L[MinOf(A)]
      x == IF has THEN ReadV4(Chars(l.w[3] \o " " \o l.w[4])) ELSE BAD_
      autoneg == <<"has_autonegotiation", NxName(t, FALSE)[11][2] /\ ~Has(<<<<"speed", "#">>, <<"duplex", "<rest>">>>>, L)>>
  IN Table(XR_TABLE, L) \o NxName(t, FALSE) \o AddrAttrs(dyn, has, x, IF has THEN l.w[3] ELSE "", nets)
     \o <<autoneg, <<"manual_carrierdelay", LET s == Int1(<<<<"carrier-delay", "#">>>>, <<2>>, 0, L) IN IF s > 0 THEN 1000 * s ELSE Int1(<<<<"carrier-delay", "msec", "#">>>>, <<3>>, 0, L)>> >>

(* ---------------------------- vPC domains ---------------------------- *)
VPC_TABLE == <<
  <<"vpc_role_priority", "int", <<<<"role", "priority", "#">>>>, <<3>>, -1>>,
  <<"vpc_system_priority", "int", <<<<"system-priority", "#">>>>, <<2>>, -1>>,
  <<"vpc_system_mac", "str", <<<<"system-mac", "*">>>>, <<2>>, "">>,
  <<"has_peer_config_check_bypass", "bool", <<<<"peer-config-check-bypass">>>>, <<>>, FALSE>>,
  <<"has_peer_switch", "bool", <<<<"peer-switch">>>>, <<>>, FALSE>>,
  <<"has_layer3_peer_router", "bool", <<<<"layer3", "peer-router", "<any>">>>>, <<>>, FALSE>>,
  <<"has_peer_gateway", "bool", <<<<"peer-gateway", "<any>">>>>, <<>>, FALSE>>,
  <<"has_auto_recovery", "bool", <<<<"auto-recovery", "<any>">>>>, <<>>, FALSE>>,
  <<"vpc_auto_recovery_reload_delay", "int", <<<<"auto-recovery", "reload-delay", "#">>>>, <<3>>, -1>>,
  <<"has_ip_arp_synchronize", "bool", <<<<"ip", "arp", "synchronize">>>>, <<>>, FALSE>>
>>
KEEP == <<<<"destination", "">>, <<"hold-timeout", -1>>, <<"interval", -1>>, <<"timeout", -1>>, <<"precedence", "">>, <<"source", "">>, <<"tos", "">>, <<"tos-byte", -1>>, <<"udp-port", -1>>, <<"vrf", "">>>>
(* options come in pairs after the first word *)
KeepOpt(w, k) == LET P == {i \in 1..(Len(w) - 1) : i % 2 = 0 /\ w[i] = KEEP[k][1]} IN
                 IF P = {} THEN <<KEEP[k][1], KEEP[k][2]>>
                 ELSE IF KEEP[k][1] \in {"hold-timeout", "interval", "timeout", "tos-byte", "udp-port"} THEN <<KEEP[k][1], NatOf(Chars(w[MinOf(P) + 1]))>>
                 ELSE <<KEEP[k][1], w[MinOf(P) + 1]>>
VpcAttrs(w, L) ==
  LET P == SelectSeq(L, LAMBDA l : l.w[1] = "peer-keepalive") pw == IF P = <<>> THEN <<"peer-keepalive">> ELSE P[1].w IN
  Table(VPC_TABLE, L) \o <<<<"vpc_domain_id", w[3]>>>> \o [k \in 1..Len(KEEP) |-> KeepOpt(pw, k)]

(* ---------------------------- NX-OS static routes ---------------------------- *)
(* ip route A/len [INTF] [NH] [track n] [name N] [tag n] [distance];
   ipv6 route [vrf V] P/len NH | INTF [NH] [nexthop-vrf V] [distance] [unicast | multicast] [tag n] *)
NXEMPTY == [fam |-> "ip", vrf |-> "", pfx |-> "", intf |-> "", nh |-> "", track |-> "", name |-> "", tag |-> "", ad |-> "1", cast |-> ""]
RECURSIVE NxRest(_, _, _)
NxRest(r, w, k) ==
  IF k > Len(w) THEN r
  ELSE IF w[k] \in {"track", "name", "tag"} THEN NxRest([r EXCEPT ![w[k]] = w[k + 1]], w, k + 2)
  ELSE IF w[k] = "nexthop-vrf" THEN NxRest(r, w, k + 2)
  ELSE IF w[k] \in {"unicast", "multicast"} THEN NxRest([r EXCEPT !.cast = w[k]], w, k + 1)
  ELSE NxRest([r EXCEPT !.ad = w[k]], w, k + 1)
IsAddr(s) == IsQuad(s) \/ (":" \in {Chars(s)[i] : i \in 1..Len(s)} /\ ReadV6(Chars(s)).ok)
IsOpt(s) == s \in {"track", "name", "tag", "nexthop-vrf", "unicast", "multicast"} \/ IsDigits(Chars(s))
ReadNxRoute(w) ==
  LET k0 == IF w[3] = "vrf" THEN 5 ELSE 3
      vrf == IF k0 = 5 THEN w[4] ELSE ""
      hasI == ~IsAddr(w[k0 + 1])
      intf == IF hasI THEN w[k0 + 1] ELSE ""
      ki == IF hasI THEN k0 + 2 ELSE k0 + 1
      hasN == ki <= Len(w) /\ IsAddr(w[ki])
      kn == IF hasN THEN ki + 1 ELSE ki
  IN NxRest([NXEMPTY EXCEPT !.fam = w[1], !.vrf = vrf, !.pfx = w[k0], !.intf = intf, !.nh = IF hasN THEN w[ki] ELSE ""], w, kn)
NxRouteAttrs(w) ==
  LET r == ReadNxRoute(w)
      six == r.fam = "ipv6"
      x == IF six THEN ReadV6(Chars(r.pfx)) ELSE ReadV4(Chars(r.pfx))
  IN << <<"address_family", r.fam>>, <<"network", SlashPart(r.pfx, 1)>>, <<"masklen", NatOf(Chars(SlashPart(r.pfx, 2)))>>,
        <<"network_object", IF six THEN ShowNet6(x) ELSE ShowNet4(x)>>,
        <<"next_hop_interface", r.intf>>, <<"next_hop_addr", r.nh>>,
        <<"nexthop_str", IF r.intf # "" /\ r.nh # "" THEN r.intf \o " " \o r.nh ELSE r.intf \o r.nh>>,
        <<"admin_distance", r.ad>>, <<"tag", r.tag>> >>
     \o (IF six THEN <<>> ELSE <<<<"netmask", ShowV4(IP!Netmask(4, x.p))>>, <<"route_name", r.name>>, <<"tracking_object_name", r.track>>>>)
=============================================================================
