------------------------------- MODULE Brace --------------------------------
(* Brace-delimited (junos) configurations.  Each line is one statement, one
   opening or closing of a block, or a comment; conversion gives every line the
   indentation of its brace depth. *)
EXTENDS ConfTree

Trail(t, ch) == LET K == {i \in 1..Len(t) : t[i] # ch} IN IF K = {} THEN <<>> ELSE SubSeq(t, 1, MaxOf(K))
Lead(t, ch) == LET K == {i \in 1..Len(t) : t[i] # ch} IN IF K = {} THEN <<>> ELSE SubSeq(t, MinOf(K), Len(t))
EmptyBraces == [src |-> "", ic |-> FALSE, ng |-> 0, alts |-> << <<
   [k |-> "r", cls |-> "s", lo |-> 0, hi |-> -1], [k |-> "c", s |-> <<"{">>],
   [k |-> "r", cls |-> "s", lo |-> 0, hi |-> -1], [k |-> "c", s |-> <<"}">>],
   [k |-> "r", cls |-> "s", lo |-> 0, hi |-> -1]>> >>]

(* a comment: '#' signs, then no further '#' *)
BraceComment(t) == t # <<>> /\ t[1] = "#" /\ \A i \in 1..Len(Lead(t, "#")) : Lead(t, "#")[i] # "#"

(* [this |-> change of depth for this line, child |-> for the lines after it, text] *)
BraceLine(raw) ==
  LET t == Strip(raw) IN
  IF BraceComment(t) THEN [this |-> 0, child |-> 0, text |-> t]
  ELSE LET close == t # <<>> /\ t[1] = "}"
           t1 == Lead(t, "}")
           t2 == Trail(t1, ";")
           open == t2 # <<>> /\ t2[Len(t2)] = "{"
           body == Strip(Trail(t2, "{"))
       IN IF close /\ open THEN [this |-> -1, child |-> 0, text |-> body]
          ELSE IF close THEN [this |-> -1, child |-> -1, text |-> <<>>]
          ELSE IF open THEN [this |-> 0, child |-> 1, text |-> body]
          ELSE [this |-> 0, child |-> 0, text |-> Strip(Sub(EmptyBraces, <<>>, Strip(t2)))]

Indented(d, t) == Spaces(IF d > 0 THEN 4 * d ELSE 0) \o t
BraceConvert(lines) ==
  LET RECURSIVE go(_, _)
      go(i, d) == IF i > Len(lines) THEN <<>>
                  ELSE LET b == BraceLine(lines[i]) IN <<Indented(d + b.this, b.text)>> \o go(i + 1, d + b.child)
  IN go(1, 0)

BraceParse(lines, o) == Tree(BraceConvert(ListLines(lines, o)), o)
=============================================================================
