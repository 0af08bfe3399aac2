-------------------------------- MODULE Attr --------------------------------
(* What the lines of a configuration say about an object, command by command.
   A command is a template: literal words, "#" a number, "*" any word, "quad" a
   dotted quad, "^abc" a word beginning with abc, and as last token "<rest>" (the
   remaining text, not empty) or "<any>" (whatever follows, possibly nothing).
   An attribute is described by the templates that set it, the word that is its
   value, and its default; the first line that matches sets it. *)
EXTENDS Source, IPText, Rx

LineOf(t) == LET ws == Words(t) IN [w |-> [i \in 1..Len(ws) |-> Str(ws[i])], t |-> t]
IsQuad(s) == LET ps == SplitChar(Chars(s), ".") IN Len(ps) = 4 /\ \A i \in 1..4 : IsDigits(ps[i])
TokOk(tok, w) ==
  \/ tok = w
  \/ tok = "*"
  \/ tok = "#" /\ IsDigits(Chars(w))
  \/ tok = "quad" /\ IsQuad(w)
  \/ SubSeq(tok, 1, 1) = "^" /\ Len(w) >= Len(tok) - 1 /\ SubSeq(w, 1, Len(tok) - 1) = SubSeq(tok, 2, Len(tok))
Fits(tpl, w) ==
  LET n == Len(tpl) last == tpl[n] IN
  IF last = "<rest>" THEN Len(w) >= n /\ \A i \in 1..(n - 1) : TokOk(tpl[i], w[i])
  ELSE IF last = "<any>" THEN Len(w) >= n - 1 /\ \A i \in 1..(n - 1) : TokOk(tpl[i], w[i])
  ELSE Len(w) = n /\ \A i \in 1..n : TokOk(tpl[i], w[i])
FitsSome(tpls, w) == \E k \in 1..Len(tpls) : Fits(tpls[k], w)
Hits(tpls, L) == {i \in 1..Len(L) : FitsSome(tpls, L[i].w)}
Has(tpls, L) == Hits(tpls, L) # {}
(* text of a line from its k-th word on *)
RECURSIVE FromWord(_, _)
FromWord(t, k) == LET s == LStrip(t) IN
                  IF k = 1 THEN s ELSE FromWord(SubSeq(s, MinOf({j \in 1..Len(s) : s[j] \in WS}), Len(s)), k - 1)
(* the word (or text) an attribute takes from the first line that sets it *)
WordAt(l, tpls, cap) == LET k == MinOf({j \in 1..Len(tpls) : Fits(tpls[j], l.w)})
                            c == cap[k] IN
                        IF tpls[k][Len(tpls[k])] = "<rest>" /\ c = Len(tpls[k]) THEN Str(FromWord(l.t, c)) ELSE l.w[c]
Str1(tpls, cap, L) == IF Has(tpls, L) THEN WordAt(L[MinOf(Hits(tpls, L))], tpls, cap) ELSE ""
Int1(tpls, cap, d, L) == IF Has(tpls, L) THEN NatOf(Chars(WordAt(L[MinOf(Hits(tpls, L))], tpls, cap))) ELSE d

(* an entry <<name, kind, templates, word positions, default>>; kinds: str, int, bool
   (TRUE when the command is there) *)
ValueOf(e, L) == CASE e[2] = "str" -> Str1(e[3], e[4], L)
                   [] e[2] = "int" -> Int1(e[3], e[4], e[5], L)
                   [] e[2] = "bool" -> Has(e[3], L)
Table(tb, L) == [i \in 1..Len(tb) |-> <<tb[i][1], ValueOf(tb[i], L)>>]

(* addresses as the library prints them, "" for none *)
ShowNet4(x) == IF x.ok THEN ShowV4(x.a) \o "/" \o ToString(x.p) ELSE ""
Net4Of(x) == IF x.ok THEN ShowV4(IP!Network(x.a, x.p)) \o "/" \o ToString(x.p) ELSE ""
ShowNet6(x) == IF x.ok THEN ShowV6(x.a) \o "/" \o ToString(x.p) ELSE ""

(* ---------------------------- ios interfaces ---------------------------- *)
IOS_TABLE == <<
  <<"description", "str", <<<<"description", "<rest>">>>>, <<2>>, "">>,
  <<"manual_bandwidth", "int", <<<<"bandwidth", "#">>>>, <<2>>, 0>>,
  <<"manual_delay", "int", <<<<"delay", "#">>>>, <<2>>, 0>>,
  <<"manual_holdqueue_out", "int", <<<<"hold-queue", "#", "out">>>>, <<2>>, 0>>,
  <<"manual_holdqueue_in", "int", <<<<"hold-queue", "#", "in">>>>, <<2>>, 0>>,
  <<"manual_encapsulation", "str", <<<<"encapsulation", "*", "<any>">>>>, <<2>>, "">>,
  <<"has_mpls", "bool", <<<<"mpls", "ip">>>>, <<>>, FALSE>>,
  <<"has_ip_secondary", "bool", <<<<"ip", "address", "*", "*", "secondary">>>>, <<>>, FALSE>>,
  <<"has_manual_speed", "bool", <<<<"speed", "#">>>>, <<>>, FALSE>>,
  <<"manual_speed", "int", <<<<"speed", "#">>>>, <<2>>, 0>>,
  <<"has_manual_duplex", "bool", <<<<"duplex", "<rest>">>>>, <<>>, FALSE>>,
  <<"manual_duplex", "str", <<<<"duplex", "<rest>">>>>, <<2>>, "">>,
  <<"has_manual_clock_rate", "bool", <<<<"clock", "rate", "#">>>>, <<>>, FALSE>>,
  <<"manual_clock_rate", "int", <<<<"clock", "rate", "#">>>>, <<3>>, 0>>,
  <<"manual_mtu", "int", <<<<"mtu", "#">>>>, <<2>>, 0>>,
  <<"has_manual_mtu", "bool", <<<<"mtu", "#">>>>, <<>>, FALSE>>,
  <<"manual_mpls_mtu", "int", <<<<"mpls", "mtu", "#">>>>, <<3>>, 0>>,
  <<"has_manual_mpls_mtu", "bool", <<<<"mpls", "mtu", "#">>>>, <<>>, FALSE>>,
  <<"manual_ip_mtu", "int", <<<<"ip", "mtu", "#">>>>, <<3>>, 0>>,
  <<"has_manual_ip_mtu", "bool", <<<<"ip", "mtu", "#">>>>, <<>>, FALSE>>,
  <<"is_shutdown", "bool", <<<<"^shut">>>>, <<>>, FALSE>>,
  <<"vrf", "str", <<<<"ip", "vrf", "forwarding", "*">>, <<"vrf", "forwarding", "*">>>>, <<4, 3>>, "">>,
  <<"has_vrf", "bool", <<<<"ip", "vrf", "forwarding", "*">>, <<"vrf", "forwarding", "*">>>>, <<>>, FALSE>>,
  <<"ipv4_netmask", "str", <<<<"ip", "address", "quad", "quad">>>>, <<4>>, "">>,
  <<"xconnect_vc", "int", <<<<"xconnect", "*", "#", "*", "<any>">>>>, <<3>>, 0>>,
  <<"has_xconnect", "bool", <<<<"xconnect", "*", "#", "*", "<any>">>>>, <<>>, FALSE>>,
  <<"has_manual_disable_cdp", "bool", <<<<"no", "cdp", "enable">>>>, <<>>, FALSE>>,
  <<"intf_in_portchannel", "bool", <<<<"channel-group", "#", "<any>">>>>, <<>>, FALSE>>,
  <<"portchannel_number", "int", <<<<"channel-group", "#", "<any>">>>>, <<2>>, -1>>,
  <<"hsrp_group", "int", <<<<"standby", "#", "ip", "*", "<any>">>>>, <<2>>, -1>>,
  <<"hsrp_track", "str", <<<<"standby", "#", "track", "*", "#">>, <<"standby", "#", "track", "*", "decrement", "#">>>>, <<4, 4>>, "">>,
  <<"has_hsrp_track", "bool", <<<<"standby", "#", "track", "*", "#">>, <<"standby", "#", "track", "*", "decrement", "#">>>>, <<>>, FALSE>>,
  <<"has_hsrp_usebia", "bool", <<<<"standby", "use-bia">>, <<"standby", "#", "use-bia">>>>, <<>>, FALSE>>,
  <<"has_hsrp_preempt", "bool", <<<<"standby", "#", "preempt", "<any>">>>>, <<>>, FALSE>>,
  <<"hsrp_authentication_md5_keychain", "str", <<<<"standby", "#", "authentication", "md5", "key-chain", "*">>>>, <<6>>, "">>,
  <<"has_hsrp_authentication_md5", "bool", <<<<"standby", "#", "authentication", "md5", "key-chain", "*">>>>, <<>>, FALSE>>,
  <<"mac_accessgroup_in", "str", <<<<"mac", "access-group", "*", "in">>>>, <<3>>, "">>,
  <<"mac_accessgroup_out", "str", <<<<"mac", "access-group", "*", "out">>>>, <<3>>, "">>,
  <<"ipv4_accessgroup_in", "str", <<<<"ip", "access-group", "*", "in">>>>, <<3>>, "">>,
  <<"ip_accessgroup_in", "str", <<<<"ip", "access-group", "*", "in">>>>, <<3>>, "">>,
  <<"ipv4_accessgroup_out", "str", <<<<"ip", "access-group", "*", "out">>>>, <<3>>, "">>,
  <<"ip_accessgroup_out", "str", <<<<"ip", "access-group", "*", "out">>>>, <<3>>, "">>,
  <<"has_ip_accessgroup_in", "bool", <<<<"ip", "access-group", "*", "in">>>>, <<>>, FALSE>>,
  <<"has_ipv4_accessgroup_in", "bool", <<<<"ip", "access-group", "*", "in">>>>, <<>>, FALSE>>,
  <<"has_ip_accessgroup_out", "bool", <<<<"ip", "access-group", "*", "out">>>>, <<>>, FALSE>>,
  <<"has_ipv4_accessgroup_out", "bool", <<<<"ip", "access-group", "*", "out">>>>, <<>>, FALSE>>
>>
(* facts about ip routing are reported for interfaces with a configured address only *)
IP_TABLE == <<
  <<"has_no_icmp_unreachables", "bool", <<<<"no", "ip", "unreachables">>>>, <<>>, FALSE>>,
  <<"has_no_icmp_redirects", "bool", <<<<"no", "ip", "redirects">>>>, <<>>, FALSE>>,
  <<"has_no_ip_proxyarp", "bool", <<<<"no", "ip", "proxy-arp">>>>, <<>>, FALSE>>,
  <<"has_ip_pim_dense_mode", "bool", <<<<"ip", "pim", "dense-mode">>>>, <<>>, FALSE>>,
  <<"has_ip_pim_sparse_mode", "bool", <<<<"ip", "pim", "sparse-mode">>>>, <<>>, FALSE>>,
  <<"has_ip_pim_sparsedense_mode", "bool", <<<<"ip", "pim", "sparse-dense-mode", "<any>">>>>, <<>>, FALSE>>,
  <<"hsrp_ip_addr", "str", <<<<"standby", "#", "ip", "*", "<any>">>>>, <<4>>, "">>
>>

ADDR4 == <<<<"ip", "address", "quad", "quad">>>>
DYNAMIC4 == <<<<"ip", "address", "dhcp">>, <<"ip", "address", "negotiated">>>>
SECOND4 == <<<<"ip", "address", "*", "*", "secondary">>>>
Addr4Text(L) == IF Has(DYNAMIC4, L) THEN "" ELSE Str1(ADDR4, <<3>>, L)
Addr4(L) == IF Has(ADDR4, L) THEN LET l == L[MinOf(Hits(ADDR4, L))] IN ReadV4(Chars(l.w[3] \o " " \o l.w[4])) ELSE BAD_
Seconds(L) == {LET l == L[i] IN ReadV4(Chars(l.w[3] \o " " \o l.w[4])) : i \in Hits(SECOND4, L)}
RECURSIVE StrLess(_, _)
StrLess(a, b) == \* in the order of the characters of addresses: "." < "/" < digits
  LET O == <<".", "/">> \o Chars("0123456789") IN
  IF a = "" THEN b # "" ELSE IF b = "" THEN FALSE
  ELSE LET x == CHOOSE i \in 1..12 : O[i] = SubSeq(a, 1, 1)  y == CHOOSE i \in 1..12 : O[i] = SubSeq(b, 1, 1) IN
       IF x # y THEN x < y ELSE StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
RECURSIVE SortStrs(_)
SortStrs(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : StrLess(x, y) IN <<m>> \o SortStrs(S \ {m})
(* IPv6: the first "ipv6 address A/len" is the address object; the text attribute is the
   first address of any kind *)
SlashPart(s, k) == LET ps == SplitChar(Chars(s), "/") IN IF k <= Len(ps) THEN Str(ps[k]) ELSE ""
ADDR6 == <<<<"ipv6", "address", "*", "<any>">>>>
DYNAMIC6 == <<<<"ipv6", "address", "dhcp">>, <<"ipv6", "address", "autoconfig">>, <<"ipv6", "address", "negotiated">>>>
Addr6Text(L) == IF Has(DYNAMIC6, L) THEN "" ELSE SlashPart(Str1(ADDR6, <<3>>, L), 1)
Addr6(L) == LET H == {i \in Hits(ADDR6, L) : IsDigits(Chars(SlashPart(L[i].w[3], 2)))} IN
            IF H = {} THEN BAD_ ELSE ReadV6(Chars(L[MinOf(H)].w[3]))
Helpers(L) ==
  LET H == SelectSeq(L, LAMBDA l : Fits(<<"ip", "helper-address", "quad">>, l.w) \/ Fits(<<"ip", "helper-address", "global", "quad">>, l.w)
                                    \/ Fits(<<"ip", "helper-address", "vrf", "*", "quad">>, l.w)) IN
  [i \in 1..Len(H) |-> LET w == H[i].w IN <<w[Len(w)], IF w[3] = "vrf" THEN w[4] ELSE "", w[3] = "global">>]

(* ------------------------------ switch ports ----------------------------- *)
VMAX == 4094
IsSwitch(L) == Has(<<<<"switchport", "<any>">>>>, L)
IsAccess(L) == Has(<<<<"switchport", "mode", "access", "<any>">>>>, L)
SWITCH_TABLE == <<
  <<"is_switchport", "bool", <<<<"switchport", "<any>">>>>, <<>>, FALSE>>,
  <<"has_manual_switch_access", "bool", <<<<"switchport", "mode", "access", "<any>">>>>, <<>>, FALSE>>,
  <<"has_manual_switch_trunk", "bool", <<<<"switchport", "mode", "trunk", "<any>">>>>, <<>>, FALSE>>,
  <<"manual_switch_trunk_encap", "str", <<<<"switchport", "trunk", "encap", "*">>>>, <<4>>, "">>,
  <<"has_manual_switch_trunk_encap", "bool", <<<<"switchport", "trunk", "encap", "*">>>>, <<>>, FALSE>>
>>
(* members of a VLAN list "1,5-7" *)
VlanSpan(t) == LET ps == SplitChar(t, "-") IN IF Len(ps) = 1 THEN {NatOf(ps[1])} ELSE NatOf(ps[1])..NatOf(ps[2])
VlanList(s) == LET ps == SplitChar(Chars(s), ",") IN UNION {VlanSpan(ps[i]) : i \in 1..Len(ps)}
TRUNK == <<"switchport", "trunk", "allowed", "vlan">>
(* one command (its words after "... allowed vlan") on the set of allowed VLANs *)
Apply1(V, c) == IF c = <<"all">> THEN 1..VMAX
                ELSE IF c = <<"none">> THEN {}
                ELSE IF Len(c) = 1 THEN VlanList(c[1])
                ELSE IF c[1] = "add" THEN V \cup VlanList(c[2])
                ELSE V \ VlanList(c[2])                          \* remove; the library reads except the same way
RECURSIVE ApplyAll(_, _)
ApplyAll(V, cs) == IF cs = <<>> THEN V ELSE ApplyAll(Apply1(V, Head(cs)), Tail(cs))
(* a list may be written with blanks about its commas *)
RECURSIVE GlueWords(_)
GlueWords(ws) == IF ws = <<>> THEN "" ELSE Head(ws) \o GlueWords(Tail(ws))
TrunkCmd(w) == IF w[1] \in {"add", "remove", "except"} THEN <<w[1], GlueWords(Tail(w))>> ELSE <<GlueWords(w)>>
TrunkCmds(L) == LET H == SelectSeq(L, LAMBDA l : Len(l.w) >= 5 /\ SubSeq(l.w, 1, 4) = TRUNK) IN
                [i \in 1..Len(H) |-> TrunkCmd(SubSeq(H[i].w, 5, Len(H[i].w)))]
Allowed(L) == ApplyAll(1..VMAX, TrunkCmds(L))
(* a set of numbers as its maximal runs *)
RECURSIVE RunsFrom(_, _, _)
RunsFrom(V, i, m) == IF i > m THEN <<>>
                     ELSE IF i \notin V THEN RunsFrom(V, i + 1, m)
                     ELSE LET e == MinOf({j \in i..m : j = m \/ (j + 1) \notin V}) IN <<<<i, e>>>> \o RunsFrom(V, e + 1, m)
Starts(V) == {v \in V : (v - 1) \notin V}
Ends(V) == {v \in V : (v + 1) \notin V}
RunList(V) == LET s == SortSet(Starts(V))  e == SortSet(Ends(V)) IN [i \in 1..Len(s) |-> <<s[i], e[i]>>]

SwitchAttrs(L) ==
  LET sw == IsSwitch(L) IN
  Table(SWITCH_TABLE, L)
  \o << <<"access_vlan", Int1(<<<<"switchport", "access", "vlan", "#">>>>, <<4>>, IF sw THEN 1 ELSE 0, L)>>,
        <<"native_vlan", Int1(<<<<"switchport", "trunk", "native", "vlan", "#">>>>, <<5>>, IF sw THEN 1 ELSE 0, L)>>,
        <<"has_switch_portsecurity", sw /\ Has(<<<<"switchport", "port-security", "<any>">>>>, L)>>,
        <<"has_switch_stormcontrol", sw /\ Has(<<<<"storm-control", "<any>">>>>, L)>>,
        <<"has_dtp", sw /\ ~Has(<<<<"switchport", "^noneg">>>>, L)>>,
        <<"trunk_vlans_allowed", IF sw /\ ~IsAccess(L) THEN RunList(Allowed(L)) ELSE <<<<0, 0>>>>>> >>

(* ------------------------------ HSRP groups ------------------------------ *)
GroupNumbers(L) == {NatOf(Chars(L[i].w[2])) : i \in {j \in 1..Len(L) : Fits(<<"standby", "#", "^ip", "<any>">>, L[j].w)}}
Timer(w, i) == IF w[i] = "msec" THEN NatOf(Chars(w[i + 1])) ELSE 1000 * NatOf(Chars(w[i]))      \* in milliseconds
\* what a tracking line says: the interface and the decrement; lines saying the same give equal objects
Tracked(l) == <<l.w[4], IF Len(l.w) > 4 THEN NatOf(Chars(l.w[Len(l.w)])) ELSE 10>>
HsrpGroup(g, L) ==
  LET Gp == <<"standby", ToString(g)>>
      T(x) == <<Gp \o x>>
      tr == SelectSeq(L, LAMBDA l : Fits(Gp \o <<"track", "*", "<any>">>, l.w))
      tm == SelectSeq(L, LAMBDA l : Fits(Gp \o <<"timers", "*", "*", "<any>">>, l.w))
      prim == SelectSeq(L, LAMBDA l : Fits(Gp \o <<"ip", "*">>, l.w))
  IN << <<"group", g>>,
        <<"ipv4", IF prim = <<>> THEN "" ELSE prim[1].w[4]>>,
        <<"ipv6", Str1(T(<<"ipv6", "*">>), <<4>>, L)>>,
        <<"has_ipv6", Has(T(<<"ipv6", "*">>), L)>>,
        <<"priority", Int1(T(<<"priority", "#">>), <<4>>, 100, L)>>,
        <<"preempt", Has(T(<<"preempt", "<any>">>), L)>>,
        <<"preempt_delay", Int1(T(<<"preempt", "delay", "minimum", "#", "<any>">>), <<6>>, 0, L)>>,
        <<"hello_timer", IF tm = <<>> THEN 3000 ELSE Timer(tm[1].w, 4)>>,
        <<"hold_timer", IF tm = <<>> THEN 10000 ELSE Timer(tm[1].w, IF tm[1].w[4] = "msec" THEN 6 ELSE 5)>>,
        <<"version", Int1(<<<<"standby", "version", "#">>>>, <<3>>, 1, L)>>,
        <<"use_bia", Has(<<<<"standby", "use-bia">>, <<"standby", "#", "use-bia">>>>, L)>>,
        <<"authentication_md5_keychain", Str1(T(<<"authentication", "md5", "key-chain", "*">>), <<6>>, L)>>,
        <<"has_authentication_md5", Has(T(<<"authentication", "md5", "key-chain", "*">>), L)>>,
        <<"has_hsrp_track", tr # <<>>>>,
        <<"interface_tracking", [i \in 1..Len(tr) |-> Tracked(tr[i]) \o <<CHOOSE j \in 1..i : Tracked(tr[j]) = Tracked(tr[i]) /\ \A k \in 1..(j - 1) : Tracked(tr[k]) # Tracked(tr[i])>>]>> >>
HsrpGroups(L) == LET s == SortSet(GroupNumbers(L)) IN [i \in 1..Len(s) |-> HsrpGroup(s[i], L)]

(* --------------------------- the interface's name -------------------------- *)
(* "interface <type><number>[.<sub>] [class]"; the number may be the next word *)
NameFacts(t) ==
  LET ws == Words(t)
      w1 == ws[2]
      D == {i \in 1..Len(w1) : w1[i] \notin ALPHA \cup {"-"}}
      typ == IF D = {} THEN w1 ELSE SubSeq(w1, 1, MinOf(D) - 1)
      num == IF D # {} THEN SubSeq(w1, MinOf(D), Len(w1)) ELSE IF Len(ws) >= 3 THEN ws[3] ELSE <<>>
      dots == {i \in 1..Len(num) : num[i] = "."}
      main == IF dots = {} THEN num ELSE SubSeq(num, 1, MinOf(dots) - 1)
      sub == IF dots = {} THEN -1 ELSE NatOf(SubSeq(num, MinOf(dots) + 1, Len(num)))
      ps == [i \in 1..Len(SplitChar(main, "/")) |-> NatOf(SplitChar(main, "/")[i])]
      n == Len(ps)
      low == Low(typ)
      Is(S) == \E s \in S : StartsWith(low, Chars(s))
  IN << <<"name", Str(JoinWith(SubSeq(ws, 2, Len(ws)), <<" ">>))>>,
        <<"port_type", Str(typ)>>,
        <<"interface_number", Str(main)>>,
        <<"subinterface_number", Str(num)>>,
        <<"port", ps[n]>>,
        <<"ordinal_list", <<IF n >= 2 THEN ps[1] ELSE -1, IF n = 3 THEN ps[2] ELSE -1, ps[n], sub, -1, -1>>>>,
        <<"is_intf", TRUE>>,
        <<"is_subintf", dots # {}>>,
        <<"is_virtual_intf", Is({"loopback", "vlan", "tunnel", "dialer", "virtual-template", "port-channel"})>>,
        <<"is_loopback_intf", low = Chars("loopback")>>,
        <<"is_ethernet_intf", EndsWith(low, Chars("ethernet"))>>,
        <<"is_portchannel_intf", Contains(low, Chars("channel"))>> >>
(* v is the type, cut short anywhere, and the number, in any case, with or without a blank between *)
Abbreviates(t, v) ==
  LET f == NameFacts(t)  typ == Low(Chars(f[2][2]))  num == Low(Chars(f[4][2]))  u == Low(Chars(v)) IN
  \E k \in 1..Len(typ) : u = SubSeq(typ, 1, k) \o num \/ u = SubSeq(typ, 1, k) \o <<" ">> \o num
Ethernet(t) == LET nf == NameFacts(t) IN nf[11][2]
ChannelNo(t) == 0

IosIntf(t, L, nets) ==
  LET a == Addr4Text(L)
      has == a # ""
      x == Addr4(L)
      x6 == Addr6(L)
      grp == IF has THEN Str1(<<<<"standby", "#", "ip", "*", "<any>">>>>, <<4>>, L) ELSE ""
      inNet(y) == x.ok /\ y.ok /\ IP!Contains_([a |-> y.a, p |-> y.p], [a |-> x.a, p |-> x.p])
      N == [i \in 1..Len(nets) |-> ReadV4(Chars(nets[i]))]
  IN Table(IOS_TABLE, L)
     \o (IF has THEN Table(IP_TABLE, L) ELSE [i \in 1..Len(IP_TABLE) |-> <<IP_TABLE[i][1], IP_TABLE[i][5]>>])
     \o NameFacts(t)
     \o << <<"ipv4_addr", a>>, <<"ip_addr", a>>,
           <<"ipv4_addr_object", ShowNet4(x)>>, <<"ip", ShowNet4(x)>>, <<"ipv4", ShowNet4(x)>>,
           <<"ipv4_masklength", IF x.ok THEN x.p ELSE 0>>,
           <<"has_no_ipv4", ~x.ok>>,
           <<"ip_network_object", IF has THEN Net4Of(x) ELSE "">>, <<"ipv4_network_object", IF has THEN Net4Of(x) ELSE "">>,
           <<"ip_secondary_addresses", SortStrs({ShowV4(y.a) : y \in Seconds(L)})>>,
           <<"ip_secondary_networks", SortStrs({ShowNet4(y) : y \in Seconds(L)})>>,
           <<"ipv6_addr", Addr6Text(L)>>, <<"ipv6_addr_object", ShowNet6(x6)>>, <<"ipv6_masklength", IF x6.ok THEN x6.p ELSE 0>>,
           <<"has_ip_helper_addresses", Helpers(L) # <<>>>>, <<"ip_helper_addresses", Helpers(L)>>,
           <<"manual_carrierdelay", LET s == Int1(<<<<"carrier-delay", "#">>>>, <<2>>, 0, L) IN
                                    IF s > 0 THEN 1000 * s ELSE Int1(<<<<"carrier-delay", "msec", "#">>>>, <<3>>, 0, L)>>,
           <<"has_manual_carrierdelay", Int1(<<<<"carrier-delay", "#">>>>, <<2>>, 0, L) + Int1(<<<<"carrier-delay", "msec", "#">>>>, <<3>>, 0, L) > 0>>,
           <<"has_autonegotiation", Ethernet(t) /\ ~Has(<<<<"speed", "#">>, <<"duplex", "<rest>">>>>, L)>>,
           <<"manual_arp_timeout", IF has THEN Int1(<<<<"arp", "timeout", "#">>>>, <<3>>, 0, L) ELSE -1>>,
           <<"has_ip_hsrp", grp # "">>,
           <<"hsrp_priority", IF grp = "" THEN 0 ELSE Int1(<<<<"standby", "#", "priority", "#">>>>, <<4>>, 100, L)>>,
           <<"hsrp_hello_timer", 1000 * Int1(<<<<"standby", "#", "timers", "#", "#">>>>, <<4>>, 0, L)>>,
           <<"hsrp_hold_timer", 1000 * Int1(<<<<"standby", "#", "timers", "#", "#">>>>, <<5>>, 0, L)>>,
           <<"has_mac_accessgroup_in", IsSwitch(L) /\ Has(<<<<"mac", "access-group", "*", "in">>>>, L)>>,
           <<"has_mac_accessgroup_out", IsSwitch(L) /\ Has(<<<<"mac", "access-group", "*", "out">>>>, L)>>,
           <<"in_ipv4_subnet", [i \in 1..Len(N) |-> inNet(N[i])]>>,
           <<"in_ipv4_subnets", \E i \in 1..Len(N) : inNet(N[i])>>,
           <<"hsrp_interfaces", HsrpGroups(L)>> >>
=============================================================================
