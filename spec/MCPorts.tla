------------------------------- MODULE MCPorts ------------------------------
(* Port expressions denote the right sets: every operator over a small range of
   ports, against its definition as a set; then the expressions over the real range. *)
EXTENDS Asa, Json
CONSTANTS Top, Edge
VARIABLES phase, op, p, q, proto
vars == <<phase, op, p, q, proto>>
OPS == {"eq", "neq", "lt", "gt", "range"}
Set_(rs) == UNION {rs[i][1]..rs[i][2] : i \in 1..Len(rs)}
Init == phase \in {"small", "names", "edges"} /\ op \in OPS
        /\ proto \in (IF phase = "small" THEN {"tcp"} ELSE {"tcp", "udp"})
        /\ p \in (IF phase = "small" THEN {ToString(n) : n \in 0..(Top + 1)} ELSE IF phase = "names" THEN DOMAIN NamesOf_(proto) ELSE Edge)
        /\ q \in (IF op # "range" THEN {"0"} ELSE IF phase = "small" THEN {ToString(n) : n \in 0..(Top + 1)} ELSE IF phase = "names" THEN {"ssh", "6000", "talk"} ELSE Edge)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
V(s) == NatOf(Chars(s))
R(o, x, y) == Ports_(Top, o, x, y)
Law == phase = "small" =>
  LET x == V(p) y == V(q) r == R(op, x, y) IN
  /\ r.ok => Set_(r.runs) = {n \in 1..Top : CASE op = "eq" -> n = x [] op = "neq" -> n # x [] op = "lt" -> n < x [] op = "gt" -> n > x [] op = "range" -> x <= n /\ n <= y}
  /\ \A i \in 1..(Len(r.runs) - 1) : r.runs[i][2] + 1 < r.runs[i + 1][1]
  /\ op = "neq" /\ x \in 2..(Top - 1) => Set_(r.runs) = Set_(R("lt", x, 0).runs) \cup Set_(R("gt", x, 0).runs)
  /\ op # "range" /\ x \in 1..Top => (1..Top) \ Set_(R("eq", x, 0).runs) = Set_(R("neq", x, 0).runs)
W_ == IF op = "range" THEN <<"range", p, q>> ELSE <<op, p>>
Known(s) == proto = "tcp" \/ IsDigits(Chars(s)) \/ s \in DOMAIN UDPNAMES
Emitted == phase # "small" /\ Known(q) => PrintT("GEN " \o ToJson(<<proto, W_, PortObs(proto, W_)>>))
=============================================================================
