--------------------------------- MODULE Asa --------------------------------
(* ASA configurations: names, object groups, port expressions.
   A network group stands for the list of its members in order, a nested group for
   the list of the group of that name; a service group for a list of port sets. *)
EXTENDS Attr, TLC

TCPNAMES == ("aol" :> 5190) @@ ("bgp" :> 179) @@ ("chargen" :> 19) @@ ("cifs" :> 3020) @@ ("citrix-ica" :> 1494) @@ ("cmd" :> 514) @@ ("ctiqbe" :> 2748)
  @@ ("daytime" :> 13) @@ ("discard" :> 9) @@ ("domain" :> 53) @@ ("echo" :> 7) @@ ("exec" :> 512) @@ ("finger" :> 79) @@ ("ftp" :> 21) @@ ("ftp-data" :> 20)
  @@ ("gopher" :> 70) @@ ("h323" :> 1720) @@ ("hostname" :> 101) @@ ("http" :> 80) @@ ("https" :> 443) @@ ("ident" :> 113) @@ ("imap4" :> 143) @@ ("irc" :> 194)
  @@ ("kerberos" :> 88) @@ ("klogin" :> 543) @@ ("kshell" :> 544) @@ ("ldap" :> 389) @@ ("ldaps" :> 636) @@ ("login" :> 513) @@ ("lotusnotes" :> 1352) @@ ("lpd" :> 515)
  @@ ("netbios-ssn" :> 139) @@ ("nfs" :> 2049) @@ ("nntp" :> 119) @@ ("pcanywhere-data" :> 5631) @@ ("pim-auto-rp" :> 496) @@ ("pop2" :> 109) @@ ("pop3" :> 110)
  @@ ("pptp" :> 1723) @@ ("rsh" :> 514) @@ ("rtsp" :> 554) @@ ("sip" :> 5060) @@ ("smtp" :> 25) @@ ("sqlnet" :> 1521) @@ ("ssh" :> 22) @@ ("sunrpc" :> 111)
  @@ ("tacacs" :> 49) @@ ("talk" :> 517) @@ ("telnet" :> 23) @@ ("uucp" :> 540) @@ ("whois" :> 43) @@ ("www" :> 80)
UDPNAMES == ("biff" :> 512) @@ ("bootpc" :> 68) @@ ("bootps" :> 67) @@ ("cifs" :> 3020) @@ ("discard" :> 9) @@ ("domain" :> 53) @@ ("echo" :> 7)
  @@ ("http" :> 80) @@ ("isakmp" :> 500) @@ ("kerberos" :> 88) @@ ("mobile-ip" :> 434) @@ ("nameserver" :> 42) @@ ("netbios-dgm" :> 138) @@ ("netbios-ns" :> 137)
  @@ ("nfs" :> 2049) @@ ("ntp" :> 123) @@ ("pcanywhere-status" :> 5632) @@ ("pim-auto-rp" :> 496) @@ ("rip" :> 520)
  @@ ("sip" :> 5060) @@ ("snmp" :> 161) @@ ("snmptrap" :> 162) @@ ("sunrpc" :> 111) @@ ("syslog" :> 514)
  @@ ("tacacs" :> 49) @@ ("talk" :> 517) @@ ("tftp" :> 69) @@ ("time" :> 37) @@ ("who" :> 513) @@ ("www" :> 80) @@ ("xdmcp" :> 177)

(* names whose number the vendor's tables do not agree on are left out *)
PORTMAX == 65535
NamesOf_(proto) == IF proto = "tcp" THEN TCPNAMES ELSE UDPNAMES
PortNo(proto, s) == IF IsDigits(Chars(s)) THEN NatOf(Chars(s)) ELSE IF s \in DOMAIN NamesOf_(proto) THEN NamesOf_(proto)[s] ELSE 0
(* a set of ports as the ascending sequence of its runs *)
Run_(lo, hi) == IF lo > hi THEN <<>> ELSE <<<<lo, hi>>>>
Refused_ == [ok |-> FALSE, runs |-> <<>>]
Ports_(M, op, p, q) ==
  CASE op = "eq" -> IF p \in 1..M THEN [ok |-> TRUE, runs |-> Run_(p, p)] ELSE Refused_
    [] op = "neq" -> IF p \in 1..M THEN [ok |-> TRUE, runs |-> Run_(1, p - 1) \o Run_(p + 1, M)] ELSE Refused_
    [] op = "lt" -> IF p \in 2..M THEN [ok |-> TRUE, runs |-> Run_(1, p - 1)] ELSE Refused_
    [] op = "gt" -> IF p \in 1..(M - 1) THEN [ok |-> TRUE, runs |-> Run_(p + 1, M)] ELSE Refused_
    [] op = "range" -> IF p \in 1..M /\ q \in p..M THEN [ok |-> TRUE, runs |-> Run_(p, q)] ELSE Refused_
(* the words of a port expression: "eq" may be left out *)
PortSpec(proto, w) ==
  IF Len(w) = 1 THEN Ports_(PORTMAX, "eq", PortNo(proto, w[1]), 0)
  ELSE IF Len(w) = 2 /\ w[1] \in {"eq", "neq", "lt", "gt"} THEN Ports_(PORTMAX, w[1], PortNo(proto, w[2]), 0)
  ELSE IF Len(w) = 3 /\ w[1] = "range" THEN Ports_(PORTMAX, "range", PortNo(proto, w[2]), PortNo(proto, w[3]))
  ELSE Refused_

(* a port set as the library prints it *)
RECURSIVE RunsText(_)
RunText(r) == IF r[1] = r[2] THEN ToString(r[1]) ELSE ToString(r[1]) \o (IF r[2] = r[1] + 1 THEN "," ELSE "-") \o ToString(r[2])
RunsText(rs) == IF rs = <<>> THEN "" ELSE IF Len(rs) = 1 THEN RunText(rs[1]) ELSE RunText(rs[1]) \o "," \o RunsText(Tail(rs))
PortObs(proto, w) == LET x == PortSpec(proto, w) IN IF x.ok THEN <<x.runs, "<L4Object " \o proto \o " ports: " \o RunsText(x.runs) \o ">">> ELSE "refused"

(* ---- definitions of a configuration; W[i] are the words of line i ---- *)
MaxOf_(S) == CHOOSE x \in S : \A y \in S : y <= x
NameLines(W) == {i \in 1..Len(W) : Len(W[i]) >= 3 /\ W[i][1] = "name" /\ IsQuad(W[i][2])}
LastName(W, n) == W[MaxOf_({i \in NameLines(W) : W[i][3] = n})][2]
NamesMap(W) == {<<W[i][3], LastName(W, W[i][3])>> : i \in NameLines(W)}
Named(W, s) == IF \E i \in NameLines(W) : W[i][3] = s THEN LastName(W, s) ELSE s
GroupLines(W, kind) == {i \in 1..Len(W) : Len(W[i]) >= 3 /\ W[i][1] = "object-group" /\ W[i][2] = kind}
GroupNamed(W, kind, n) == LET gs == {i \in GroupLines(W, kind) : W[i][3] = n} IN IF gs = {} THEN 0 ELSE MaxOf_(gs)
GroupMap(W, kind) == {<<W[i][3], GroupNamed(W, kind, W[i][3]) - 1>> : i \in GroupLines(W, kind)}
AclLines(W) == {i \in 1..Len(W) : Len(W[i]) >= 2 /\ W[i][1] = "access-list"}
AclMap(W) == {<<W[i][2], [k \in 1..Cardinality({j \in AclLines(W) : W[j][2] = W[i][2]}) |->
                            CHOOSE j \in AclLines(W) : W[j][2] = W[i][2] /\ Cardinality({x \in AclLines(W) : W[x][2] = W[i][2] /\ x < j}) = k - 1]>> : i \in AclLines(W)}
SpaceJoin(w) == JoinStr(w, " ")
SortedLines(S) == [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]
BadList == [ok |-> FALSE, l |-> <<>>]
(* K[i]: the children of line i.  fuel bounds the nesting: groups that reach themselves are refused *)
RECURSIVE Nets(_, _, _, _), NetMembers(_, _, _, _)
Both(a, b) == IF a.ok /\ b.ok THEN [ok |-> TRUE, l |-> a.l \o b.l] ELSE BadList
NetMember(W, K, w, own, fuel) ==
  CASE Len(w) >= 3 /\ w[1] = "network-object" /\ w[2] = "host" -> [ok |-> TRUE, l |-> <<Named(W, w[3])>>]
    [] Len(w) >= 3 /\ w[1] = "network-object" /\ IsQuad(w[3]) ->
         [ok |-> TRUE, l |-> <<IF w[3] = "255.255.255.255" THEN Named(W, w[2]) ELSE Named(W, w[2]) \o "/" \o w[3]>>]
    [] Len(w) >= 2 /\ w[1] = "group-object" -> IF fuel = 0 \/ w[2] = own \/ GroupNamed(W, "network", w[2]) = 0 THEN BadList
                                              ELSE Nets(W, K, GroupNamed(W, "network", w[2]), fuel - 1)
    [] Len(w) >= 2 /\ w[1] = "description" -> [ok |-> TRUE, l |-> <<>>]
    [] OTHER -> BadList
NetMembers(W, K, i, r) == IF r.ks = <<>> THEN [ok |-> TRUE, l |-> <<>>]
                          ELSE Both(NetMember(W, K, W[Head(r.ks)], W[i][3], r.fuel), NetMembers(W, K, i, [r EXCEPT !.ks = Tail(r.ks)]))
Nets(W, K, i, fuel) == NetMembers(W, K, i, [ks |-> K[i], fuel |-> fuel])

RECURSIVE Svcs(_, _, _, _), SvcMembers(_, _, _, _)
Protos(p) == IF p = "tcp-udp" THEN <<"tcp", "udp">> ELSE IF p \in {"tcp", "udp"} THEN <<p>> ELSE <<>>
PortSets(p, spec) ==
  LET ps == Protos(p) IN
  IF ps = <<>> \/ \E k \in 1..Len(ps) : ~PortSpec(ps[k], spec).ok THEN BadList
  ELSE [ok |-> TRUE, l |-> [k \in 1..Len(ps) |-> <<ps[k], PortSpec(ps[k], spec).runs>>]]
TypeOf(w) == IF Len(w) >= 4 THEN w[4] ELSE ""
SvcMember(W, K, w, i, fuel) ==
  CASE Len(w) >= 4 /\ w[1] = "service-object" -> PortSets(w[2], SubSeq(w, 4, Len(w)))
    [] Len(w) >= 3 /\ w[1] = "port-object" /\ w[2] \in {"eq", "range"} -> PortSets(TypeOf(W[i]), SubSeq(w, 2, Len(w)))
    [] Len(w) >= 2 /\ w[1] = "group-object" -> IF fuel = 0 \/ w[2] = W[i][3] \/ GroupNamed(W, "service", w[2]) = 0 THEN BadList
                                              ELSE Svcs(W, K, GroupNamed(W, "service", w[2]), fuel - 1)
    [] Len(w) >= 2 /\ w[1] = "description" -> [ok |-> TRUE, l |-> <<>>]
    [] OTHER -> BadList
SvcMembers(W, K, i, r) == IF r.ks = <<>> THEN [ok |-> TRUE, l |-> <<>>]
                          ELSE Both(SvcMember(W, K, W[Head(r.ks)], i, r.fuel), SvcMembers(W, K, i, [r EXCEPT !.ks = Tail(r.ks)]))
Svcs(W, K, i, fuel) == SvcMembers(W, K, i, [ks |-> K[i], fuel |-> fuel])
FUEL == 6
(* what is observed of a group: the expansion, or "refused" *)
NetText(s) == LET ps == SplitChar(Chars(s), "/") IN ReadV4(IF Len(ps) = 1 THEN Chars(s) ELSE ps[1] \o <<" ">> \o ps[2])
NetAttrs(W, K, i) ==
  LET x == Nets(W, K, i, FUEL) IN
  << <<"name", W[i][3]>>,
     <<"network_strings", IF x.ok THEN x.l ELSE "refused">>,
     <<"network_count", IF x.ok THEN Len(x.l) ELSE "refused">>,
     <<"networks", IF x.ok /\ \A k \in 1..Len(x.l) : NetText(x.l[k]).ok THEN [k \in 1..Len(x.l) |-> ShowNet4(NetText(x.l[k]))] ELSE "refused">> >>
SvcAttrs(W, K, i) ==
  LET x == Svcs(W, K, i, FUEL) IN
  << <<"name", W[i][3]>>, <<"protocol_type", TypeOf(W[i])>>, <<"L4Objects_are_directional", TypeOf(W[i]) = "">>,
     <<"ports", IF x.ok THEN x.l ELSE "refused">> >>
NameAttrs(W, i) == << <<"name", W[i][3]>>, <<"addr", W[i][2]>> >>
=============================================================================
