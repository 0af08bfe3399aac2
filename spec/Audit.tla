------------------------------- MODULE Audit --------------------------------
(* Enforcing a list of required lines: every line that matches the search but is
   not required is withdrawn, inside its sections; a required line no matching
   line says is entered. *)
EXTENDS Rollback, Rx

Required(reqs, t) == \E k \in 1..Len(reqs) : Strip(reqs[k]) = Strip(t)
Violators(T, lp, reqs) == {i \in 1..T.n : Matches(lp, T.txt[i]) /\ ~Required(reqs, T.txt[i])}
Context(T, V) == UNION {Anc(T, i) : i \in V}
(* the part of the line that the second search finds, without a leading "no" *)
Part(t, up) == LET m == Search(up, t, 1)  s == LStrip(SubSeq(t, m.start, m.end - 1)) IN
               IF Len(s) > 2 /\ SubSeq(s, 1, 2) = Chars("no") /\ s[3] \in WS THEN LStrip(SubSeq(s, 3, Len(s))) ELSE s
Withdraw(t, up) == Spaces(IndentOf(t)) \o Chars("no ") \o Part(t, up)
Absent(T, lp, reqs) == SelectSeq(reqs, LAMBDA q : ~\E i \in 1..T.n : Matches(lp, T.txt[i]) /\ Strip(T.txt[i]) = Strip(q))
ExclDiff(T, lp, up, reqs) ==
  LET V == Violators(T, lp, reqs)  s == SortSet(V \cup Context(T, V)) IN
  [k \in 1..Len(s) |-> IF s[k] \in V THEN Withdraw(T.txt[s[k]], up) ELSE T.txt[s[k]]] \o Absent(T, lp, reqs)
(* what is asked is well defined: the lines to go are commands, the second search
   finds a part of each, and none is inside another one *)
WellAsked(T, lp, up, reqs) ==
  LET V == Violators(T, lp, reqs) IN
  \A i \in V : ~T.com[i] /\ Strip(T.txt[i]) # <<>> /\ Matches(up, T.txt[i]) /\ Part(T.txt[i], up) # <<>> /\ Anc(T, i) \cap V = {}
=============================================================================
