------------------------------ MODULE MCJunos -------------------------------
(* A writer of brace configurations which knows for each statement whether it
   is inside the outermost interfaces block, and how deep; reading what it wrote
   finds exactly its interfaces and units. *)
EXTENDS Junos, Json
CONSTANTS MaxLines, Emit
VARIABLES lines, stack, log    \* stack: kinds of the open blocks, innermost first; log: per statement <<kind, name>>
vars == <<lines, stack, log>>
Opt == [cd |-> {"#"}, ign |-> TRUE, fac |-> FALSE, syn |-> "junos"]
Top(s) == IF s = <<>> THEN "" ELSE s[1].kind
KindIn(s, text) == CASE s = <<>> /\ text = "interfaces" -> "interfaces"
                     [] Top(s) = "interfaces" -> "phys"
                     [] Top(s) = "phys" /\ text \in {"unit 0", "unit 10"} -> "unit"
                     [] OTHER -> "other"
NameIn(s, k, text) == CASE k = "phys" -> text [] k = "unit" -> s[1].name \o " " \o text [] OTHER -> "~None~"
Write(text, opens, tail) ==
  LET k == KindIn(stack, text)  e == [kind |-> k, name |-> NameIn(stack, k, text)] IN
  /\ lines' = Append(lines, Chars(text \o tail))
  /\ log' = Append(log, e)
  /\ stack' = IF opens THEN <<e>> \o stack ELSE stack
Close == stack # <<>> /\ lines' = Append(lines, Chars("}")) /\ stack' = Tail(stack) /\ log' = log
Init == lines = <<>> /\ stack = <<>> /\ log = <<>>
Next == Len(lines) < MaxLines /\
  \/ \E b \in {"interfaces", "ge-0/0/0", "unit 0", "community"} : ~(b \in {"interfaces", "unit 0"} /\ Top(stack) = "interfaces") /\ Write(b, TRUE, " {")
  \/ \E s \in {"unit 10", "family ethernet-switching", "description unit"} : ~(s = "unit 10" /\ Top(stack) = "interfaces") /\ Write(s, FALSE, ";")
  \/ Close
Spec == Init /\ [][Next]_vars
Reads == LET T == BraceParse(lines, Opt) IN
  /\ T.n = Len(log)
  /\ \A i \in 1..T.n : LET a == JunosAttrs(T, i) IN
       /\ a[1][2] = (log[i].kind \in {"phys", "unit"}) /\ a[2][2] = (log[i].kind = "unit")
       /\ a[3][2] = log[i].name
       /\ a[5][2] => a[1][2]
(* who is a switchport stays one; an interface is one iff itself or one of its units could be *)
Grows == [][LET T == BraceParse(lines, Opt)  U == BraceParse(lines', Opt) IN
            \A i \in 1..T.n : JunosAttrs(T, i)[5][2] => JunosAttrs(U, i)[5][2]]_vars
Emitted == (Emit /\ Len(lines) = MaxLines) => PrintT("GEN " \o ToJson([i \in 1..Len(lines) |-> Str(lines[i])]))
=============================================================================
