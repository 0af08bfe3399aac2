------------------------------ MODULE MCBrace -------------------------------
(* A writer of brace configurations: it opens blocks, closes them and writes
   statements, remembering the path of open blocks.  Parsing what it wrote gives
   every statement the innermost open block as its parent. *)
EXTENDS Brace, Json
CONSTANTS MaxLines, Emit
VARIABLES lines, open, expect     \* expect: for every written statement, the index of its block (0: none), in order
Opt == [cd |-> {"#"}, ign |-> TRUE, fac |-> FALSE, syn |-> "junos"]
Init == lines = <<>> /\ open = <<>> /\ expect = <<>>
N == Len(expect)
Owner == IF open = <<>> THEN 0 ELSE Head(open)
Write(l, opens) ==
  /\ lines' = Append(lines, Chars(l))
  /\ expect' = Append(expect, Owner)
  /\ open' = IF opens THEN <<N + 1>> \o open ELSE open
Next == Len(lines) < MaxLines /\
  \/ Write("b {", TRUE) \/ Write("  c d{", TRUE) \/ Write("s;", FALSE) \/ Write(" s [ x y ];", FALSE)
  \/ Write("# note {", FALSE) \/ Write("e { }", FALSE) \/ Write("q \"a { b\";", FALSE) \/ Write("f { g; }", FALSE)
  \/ open # <<>> /\ lines' = Append(lines, Chars("}")) /\ open' = Tail(open) /\ expect' = expect
  \/ open # <<>> /\ lines' = Append(lines, Chars("} else {")) /\ open' = <<N + 1>> \o Tail(open)
       /\ expect' = Append(expect, IF Tail(open) = <<>> THEN 0 ELSE Head(Tail(open)))
  \/ lines' = Append(lines, <<>>) /\ UNCHANGED <<open, expect>>

Depth(t, i) == Cardinality(Anc(t, i))
Orphan(t, i) == t.com[i] /\ i > 1 /\ t.ind[i - 1] > t.ind[i]     \* a comment below a deeper line
Nested ==
  LET t == BraceParse(lines, Opt) IN
  /\ t.n = N
  /\ \A i \in 1..N : (\A j \in 1..N : ~t.com[j]) => t.ind[i] = 4 * Depth(t, i)
  /\ \A i \in 1..N : IF Orphan(t, i) THEN t.par[i] = i ELSE t.par[i] = (IF expect[i] = 0 THEN i ELSE expect[i])
(* leading and trailing blanks do not matter *)
Layout == BraceConvert(lines) = BraceConvert([i \in 1..Len(lines) |-> <<" ", "\t">> \o lines[i] \o <<" ">>])
Emitted == (Emit /\ Len(lines) = MaxLines) => PrintT("GEN " \o ToJson([i \in 1..Len(lines) |-> Str(lines[i])]))
=============================================================================
