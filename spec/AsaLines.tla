------------------------------ MODULE AsaLines ------------------------------
(* ASA access-list entries, word by word, and the attributes of ASA interfaces.
     access-list N remark text
     access-list N standard permit|deny ADDR
     access-list N extended permit|deny PROTO ADDR [PORTS] ADDR [PORTS | icmp-type] [log [level] [interval n]] [disable] [inactive | time-range T]
   ADDR: any | any4 | host A | object O | object-group G | net mask;  PORTS: eq|neq|lt|gt p | range p q | object-group G;
   PROTO: a name, a number, or object-group G. *)
EXTENDS Asa

PROTONUMBERS == ("ip" :> 0) @@ ("icmp" :> 1) @@ ("igmp" :> 2) @@ ("ipinip" :> 4) @@ ("tcp" :> 6) @@ ("igrp" :> 9) @@ ("udp" :> 17) @@ ("gre" :> 47) @@ ("esp" :> 50)
                @@ ("ipsec" :> 50) @@ ("ah" :> 51) @@ ("eigrp" :> 88) @@ ("ospf" :> 89) @@ ("pim" :> 103) @@ ("pcp" :> 108) @@ ("snp" :> 109) @@ ("pptp" :> 47)
LEVELS == {"alerts", "critical", "debugging", "emergencies", "errors", "informational", "notifications", "warnings", "0", "1", "2", "3", "4", "5", "6", "7"}
NoneMark == "~None~"
EmptyAcl == [name |-> "", action |-> "", remark |-> NoneMark, proto |-> -1, svc |-> "", src |-> "", dst |-> "", srcw |-> "", dstw |-> "", sport |-> "", dport |-> "", icmp |-> "",
             log |-> FALSE, level |-> "", interval |-> -1, disable |-> FALSE, inactive |-> FALSE, range |-> NoneMark, standard |-> FALSE]
W_At(w, k) == IF k <= Len(w) THEN w[k] ELSE ""
AddrLen(w, k) == CASE W_At(w, k) \in {"any", "any4"} -> 1
                   [] W_At(w, k) \in {"host", "object", "object-group"} /\ k < Len(w) -> 2
                   [] k < Len(w) /\ IsQuad(w[k + 1]) -> 2
                   [] OTHER -> 0
AddrKind(w, k) == IF w[k] \in {"object", "object-group"} THEN w[k] ELSE "network"
PortLen(w, k) == CASE W_At(w, k) \in {"eq", "neq", "lt", "gt"} -> 2
                   [] W_At(w, k) = "range" -> 3
                   [] OTHER -> 0
Part(w, k, n) == IF n = 0 THEN "" ELSE SpaceJoin(SubSeq(w, k, k + n - 1))
Tail4(r, w, k) == IF W_At(w, k) = "inactive" THEN [r EXCEPT !.inactive = TRUE]
                  ELSE IF W_At(w, k) = "time-range" THEN [r EXCEPT !.range = w[k + 1]] ELSE r
Disable4(r, w, k) == IF W_At(w, k) = "disable" THEN Tail4([r EXCEPT !.disable = TRUE], w, k + 1) ELSE Tail4(r, w, k)
Interval4(r, w, k) == IF W_At(w, k) = "interval" THEN Disable4([r EXCEPT !.interval = NatOf(Chars(w[k + 1]))], w, k + 2) ELSE Disable4([r EXCEPT !.interval = 300], w, k)
Level4(r, w, k) == IF W_At(w, k) \in LEVELS THEN Interval4([r EXCEPT !.level = w[k]], w, k + 1) ELSE Interval4([r EXCEPT !.level = "informational"], w, k)
Log4(r, w, k) == IF W_At(w, k) = "log" THEN Level4([r EXCEPT !.log = TRUE], w, k + 1) ELSE Disable4(r, w, k)
Icmp4(r, w, k) == IF r.proto = 1 /\ k <= Len(w) /\ w[k] \notin {"log", "disable", "inactive", "time-range"} THEN Log4([r EXCEPT !.icmp = w[k]], w, k + 1) ELSE Log4(r, w, k)
GroupPort(w, k) == IF PortLen(w, k) > 0 THEN PortLen(w, k) ELSE IF W_At(w, k) = "object-group" THEN 2 ELSE 0
Dport4(r, w, k) == LET n == GroupPort(w, k) IN Icmp4([r EXCEPT !.dport = Part(w, k, n)], w, k + n)
Dst4(r, w, k) == LET n == AddrLen(w, k) IN Dport4([r EXCEPT !.dst = AddrKind(w, k), !.dstw = Part(w, k, n)], w, k + n)
(* an object group between two addresses is a group of ports when an address follows it *)
Sport4(r, w, k) == LET n == IF PortLen(w, k) > 0 THEN PortLen(w, k) ELSE IF W_At(w, k) = "object-group" /\ AddrLen(w, k + 2) > 0 THEN 2 ELSE 0 IN
                   Dst4([r EXCEPT !.sport = Part(w, k, n)], w, k + n)
Src4(r, w, k) == LET n == AddrLen(w, k) IN Sport4([r EXCEPT !.src = AddrKind(w, k), !.srcw = Part(w, k, n)], w, k + n)
Proto4(r, w, k) == IF w[k] = "object-group" THEN Src4([r EXCEPT !.proto = 65535, !.svc = w[k + 1]], w, k + 2)
                   ELSE Src4([r EXCEPT !.proto = IF IsDigits(Chars(w[k])) THEN NatOf(Chars(w[k])) ELSE PROTONUMBERS[w[k]]], w, k + 1)
ReadAcl(t, w) ==
  LET r == [EmptyAcl EXCEPT !.name = w[2]] IN
  IF w[3] = "remark" THEN [r EXCEPT !.action = "remark", !.remark = Str(FromWord(t, 4))]
  ELSE IF w[3] = "standard" THEN [r EXCEPT !.standard = TRUE, !.action = w[4], !.proto = 0, !.src = "network", !.dst = "network", !.dstw = SpaceJoin(SubSeq(w, 5, Len(w)))]
  ELSE Proto4([r EXCEPT !.action = w[4]], w, 5)
ShowAcl(r, proto) ==
  LET pre(s, x) == IF x = "" \/ x = NoneMark THEN "" ELSE s \o x IN
  "access-list " \o r.name \o
  (IF r.action = "remark" THEN " remark " \o r.remark
   ELSE IF r.standard THEN " standard " \o r.action \o " " \o r.dstw
   ELSE " extended " \o r.action \o " " \o proto \o pre(" ", r.srcw) \o pre(" ", r.sport) \o pre(" ", r.dstw) \o pre(" ", r.dport) \o pre(" ", r.icmp)
        \o (IF r.log THEN " log" \o (IF r.level = "informational" THEN "" ELSE " " \o r.level) \o (IF r.interval = 300 THEN "" ELSE " interval " \o ToString(r.interval)) ELSE "")
        \o (IF r.disable THEN " disable" ELSE "") \o (IF r.inactive THEN " inactive" ELSE "") \o pre(" time-range ", r.range))
AclAttrs(r) == << <<"acl_name", r.name>>, <<"action", r.action>>, <<"remark", r.remark>>, <<"ip_protocol", r.proto>>, <<"ip_protocol_object", r.svc>>,
                  <<"src_addr_method", r.src>>, <<"dst_addr_method", r.dst>>, <<"disable", r.disable>>, <<"time_range", r.range>>, <<"log", r.log>>,
                  <<"log_level", r.level>>, <<"log_interval", r.interval>> >>

(* ---------------------------- asa interfaces ---------------------------- *)
ASA_TABLE == <<
  <<"description", "str", <<<<"description", "<rest>">>>>, <<2>>, "">>,
  <<"manual_delay", "int", <<<<"delay", "#">>>>, <<2>>, 0>>,
  <<"has_manual_speed", "bool", <<<<"speed", "#">>>>, <<>>, FALSE>>,
  <<"has_manual_duplex", "bool", <<<<"duplex", "<rest>">>>>, <<>>, FALSE>>,
  <<"is_shutdown", "bool", <<<<"^shut">>>>, <<>>, FALSE>>,
  <<"ipv4_addr", "str", <<<<"ip", "address", "quad", "<any>">>>>, <<3>>, "">>,
  <<"ip_addr", "str", <<<<"ip", "address", "quad", "<any>">>>>, <<3>>, "">>,
  <<"ipv4_netmask", "str", <<<<"ip", "address", "quad", "quad", "<any>">>>>, <<4>>, "">>,
  <<"ipv4_standby_addr", "str", <<<<"ip", "address", "quad", "quad", "standby", "*">>>>, <<6>>, "">>,
  <<"ipv6_standby_addr", "str", <<<<"ipv6", "address", "*", "standby", "*">>>>, <<5>>, "">>,
  <<"is_switchport", "bool", <<<<"switchport", "<any>">>>>, <<>>, FALSE>>,
  <<"has_manual_switch_access", "bool", <<<<"switchport", "mode", "access">>>>, <<>>, FALSE>>,
  <<"has_manual_switch_trunk", "bool", <<<<"switchport", "mode", "trunk">>>>, <<>>, FALSE>>,
  <<"access_vlan", "int", <<<<"switchport", "access", "vlan", "#">>>>, <<4>>, 0>>
>>
ASAADDR4 == <<<<"ip", "address", "quad", "quad", "<any>">>>>
ASAADDR6 == <<<<"ipv6", "address", "*", "<any>">>>>
Quad_(s) == IF s = "" THEN BAD_ ELSE ReadV4(Chars(s))
AsaName(t) == LET n == NameFacts(t) IN
  << <<"name", n[1][2]>>, <<"port_type", n[2][2]>>, <<"is_intf", TRUE>>, <<"is_subintf", n[8][2]>>, <<"is_ethernet_intf", n[11][2]>>, <<"is_loopback_intf", n[10][2]>> >>
AsaIntf(t, L, nets) ==
  LET sp == <<" ">>
      a == Has(ASAADDR4, L)
      l == L[MinOf(Hits(ASAADDR4, L))]
      x == IF a THEN ReadV4(Chars(l.w[3] \o " " \o l.w[4])) ELSE BAD_
      sb == Str1(<<<<"ip", "address", "quad", "quad", "standby", "*">>>>, <<6>>, L)
      xs == IF sb = "" THEN BAD_ ELSE ReadV4(Chars(sb \o " " \o l.w[4]))
      x6 == Addr6(L)
      inNet(y) == x.ok /\ y.ok /\ IP!Contains_([a |-> y.a, p |-> y.p], [a |-> x.a, p |-> x.p])
      N == [i \in 1..Len(nets) |-> ReadV4(Chars(nets[i]))]
      num == SplitChar(Chars(NameFacts(t)[3][2]), "/")
  IN Table(ASA_TABLE, L) \o AsaName(t)
     \o << <<"ordinal_list", [i \in 1..Len(num) |-> NatOf(num[i])]>>, <<"port", NatOf(num[Len(num)])>>,
           <<"ipv4_addr_object", ShowNet4(x)>>, <<"ip", ShowNet4(x)>>, <<"ipv4", ShowNet4(x)>>, <<"has_no_ipv4", ~x.ok>>, <<"ipv4_masklength", IF x.ok THEN x.p ELSE 0>>,
           <<"ipv4_standby_addr_object", ShowNet4(xs)>>,
           <<"ip_network_object", IF x.ok THEN Net4Of(x) ELSE "refused">>, <<"ipv4_network_object", IF x.ok THEN Net4Of(x) ELSE "refused">>,
           <<"ipv6_addr_object", ShowNet6(x6)>>, <<"ipv6_addr", IF x6.ok THEN ShowV6(x6.a) ELSE "">>, <<"ipv6_masklength", IF x6.ok THEN x6.p ELSE 0>>,
           <<"has_autonegotiation", Ethernet(t) /\ ~Has(<<<<"speed", "#">>, <<"duplex", "<rest>">>>>, L)>>,
           <<"has_ip_pim_sparse_mode", Has(<<<<"ip", "address", "quad", "<any>">>>>, L) /\ Has(<<<<"ip", "pim", "sparse-mode">>>>, L)>>,
           <<"in_ipv4_subnet", IF x.ok THEN [i \in 1..Len(N) |-> inNet(N[i])] ELSE [i \in 1..Len(N) |-> NoneMark]>>,
           <<"in_ipv4_subnets", IF x.ok THEN \E i \in 1..Len(N) : inNet(N[i]) ELSE NoneMark>> >>
HostName(w) == << <<"hostname", w[2]>> >>
=============================================================================
