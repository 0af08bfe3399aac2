-------------------------------- MODULE MCAcl -------------------------------
(* Access-list entries built clause by clause: reading an entry gives the entry back,
   and one more clause changes its own field only. *)
EXTENDS AsaLines, Json
CONSTANTS Addrs, Protos_, Rich
VARIABLES r, proto, stage, line, val
vars == <<r, proto, stage, line, val>>
WordsOf(s) == LineOf(Chars(s)).w
Set(x, p, s) == r' = x /\ proto' = p /\ stage' = s /\ line' = ShowAcl(x, p) /\ val' = IF s >= 4 THEN ReadAcl(Chars(line'), WordsOf(line')) ELSE EmptyAcl
Kind_(a) == AddrKind(WordsOf(a), 1)
Init == /\ \E act \in {"permit", "deny"} : r = [EmptyAcl EXCEPT !.name = "A-1", !.action = act]
        /\ proto = "" /\ stage = 1 /\ line = "" /\ val = EmptyAcl
PORTS == IF Rich THEN {"eq 80", "range 1 smtp", "object-group PORTS", "neq 5"} ELSE {"eq 80", "object-group PORTS"}
L4(p) == p \in {"tcp", "udp"}
Next == \/ stage = 1 /\ r.action = "permit" /\ Set([r EXCEPT !.standard = TRUE, !.proto = 0, !.src = "network", !.dst = "network", !.dstw = "10.0.0.0 255.0.0.0"], "", 9)
        \/ stage = 1 /\ r.action = "deny" /\ Set([r EXCEPT !.action = "remark", !.remark = "deny tcp any any log"], "", 9)
        \/ stage = 1 /\ \E p \in Protos_ : Set([r EXCEPT !.proto = IF p = "object-group SVC" THEN 65535 ELSE IF IsDigits(Chars(p)) THEN NatOf(Chars(p)) ELSE PROTONUMBERS[p],
                                                        !.svc = IF p = "object-group SVC" THEN "SVC" ELSE ""], p, 2)
        \/ stage = 2 /\ \E a \in Addrs : Set([r EXCEPT !.src = Kind_(a), !.srcw = a], proto, 3)
        \/ stage = 3 /\ L4(proto) /\ r.sport = "" /\ \E s \in PORTS : Set([r EXCEPT !.sport = s], proto, 3)
        \/ stage = 3 /\ \E a \in Addrs : Set([r EXCEPT !.dst = Kind_(a), !.dstw = a], proto, 4)
        \/ stage = 4 /\ L4(proto) /\ \E s \in PORTS : Set([r EXCEPT !.dport = s], proto, 5)
        \/ stage = 4 /\ proto = "icmp" /\ \E s \in {"echo-reply", "8"} : Set([r EXCEPT !.icmp = s], proto, 5)
        \/ stage \in {4, 5} /\ Set([r EXCEPT !.log = TRUE, !.level = "informational", !.interval = 300], proto, 6)
        \/ stage = 6 /\ r.level = "informational" /\ \E s \in {"debugging", "7"} : Set([r EXCEPT !.level = s], proto, 6)
        \/ stage = 6 /\ r.interval = 300 /\ Set([r EXCEPT !.interval = 60], proto, 6)
        \/ stage \in 4..6 /\ Set([r EXCEPT !.disable = TRUE], proto, 7)
        \/ stage \in 4..7 /\ (\/ Set([r EXCEPT !.inactive = TRUE], proto, 9) \/ Set([r EXCEPT !.range = "WORK"], proto, 9))
Spec == Init /\ [][Next]_vars
(* two object groups after the source read as ports and destination, though they may have been meant
   as destination and ports: what is reported of the entry is the same *)
Ambiguous == r.sport = "" /\ r.dst = "object-group" /\ r.dport = "object-group PORTS"
RoundTrip == stage >= 4 => (Ambiguous \/ val = r) /\ AclAttrs(val) = AclAttrs(r)
OneField == [][stage >= 4 /\ ~Ambiguous' => LET D == {f \in DOMAIN r : val'[f] # val[f]} IN Cardinality(D \ {"level", "interval"}) <= 1 /\ D # {}]_vars
Emitted == stage >= 4 => PrintT("GEN " \o ToJson(<<line, AclAttrs(val)>>))
=============================================================================
