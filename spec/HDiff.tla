------------------------------- MODULE HDiff --------------------------------
(* The hierarchical difference of two configurations.  A line is identified by
   its family path: the normalised texts from its topmost ancestor down to it.
   The difference is a sequence of rows [path, word, ind]: first every path of the
   first configuration in its order, kept or removed; every path that only the
   second configuration has is then inserted below its parent, after the
   additions already made there (at the end when it has no parent). *)
EXTENDS ConfTree

DiffOpt == [cd |-> {"!"}, ign |-> TRUE, fac |-> FALSE, syn |-> "ios"]
Norm(t) == Spaces(IndentOf(t)) \o JoinWith(Words(t), <<" ">>)
PathOf(T, i) == LET g == Geneology(T, i) IN [k \in 1..Len(g) |-> Norm(T.txt[g[k]])]
Paths(T) == [i \in 1..T.n |-> PathOf(T, i)]
Row(p, w) == [path |-> p, word |-> w]
Prefix(p) == SubSeq(p, 1, Len(p) - 1)
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p

RECURSIVE FirstRows(_, _, _)
FirstRows(ps, after, out) ==
  IF ps = <<>> THEN out
  ELSE LET p == Head(ps) IN
       FirstRows(Tail(ps), after, IF \E k \in 1..Len(out) : out[k].path = p THEN out
                                  ELSE Append(out, Row(p, IF p \in after THEN "keep" ELSE "remove")))
RowAt(out, p) == LET S == {k \in 1..Len(out) : out[k].path = p} IN IF S = {} THEN 0 ELSE MinOf(S)
RECURSIVE SkipAdded(_, _, _)
SkipAdded(out, p, k) == IF k < Len(out) /\ out[k + 1].word = "add" /\ Below(p, out[k + 1].path) THEN SkipAdded(out, p, k + 1) ELSE k
InsertAt(out, k, r) == SubSeq(out, 1, k) \o <<r>> \o SubSeq(out, k + 1, Len(out))
RECURSIVE AddRows(_, _)
AddRows(ps, out) ==
  IF ps = <<>> THEN out
  ELSE LET p == Head(ps)  par == RowAt(out, Prefix(p)) IN
       AddRows(Tail(ps), IF RowAt(out, p) # 0 THEN out
                         ELSE IF Len(p) = 1 \/ par = 0 THEN Append(out, Row(p, "add"))
                         ELSE InsertAt(out, SkipAdded(out, Prefix(p), par), Row(p, "add")))
Diff(a, b) == AddRows(b, FirstRows(a, Rng(b), <<>>))       \* of two sequences of paths
DiffOf(t, u) == Diff(Paths(t), Paths(u))

Text(r) == r.path[Len(r.path)]
Unified(r) == (CASE r.word = "add" -> <<"+">> [] r.word = "remove" -> <<"-">> [] OTHER -> <<" ">>) \o Text(r)

-----------------------------------------------------------------------------
(* the commands bringing the first configuration to the second, for the lines
   selected by lp; removed lines are withdrawn by the part matching up *)
FixNo(t) == \* "no no x" is "x"
  LET RECURSIVE go(_)
      go(u) == LET w == Words(u) IN
               IF Len(w) > 2 /\ w[1] = Chars("no") /\ w[2] = Chars("no")
               THEN LET s == LStrip(u) a == LStrip(SubSeq(s, 3, Len(s))) IN go(Spaces(IndentOf(u)) \o LStrip(SubSeq(a, 3, Len(a))))
               ELSE u
  IN go(t)
RECURSIVE Commands(_, _, _, _)
Commands(rows, lp, up, rem) ==
  IF rows = <<>> THEN <<>>
  ELSE LET r == Head(rows)  t == Text(r)
           m == Search(up, t, 1)
           cmd == IF r.word = "keep" \/ ~Matches(lp, t) THEN <<>>
                  ELSE IF r.word = "add" THEN r.path
                  ELSE IF rem /\ m.ok THEN <<FixNo(Spaces(IndentOf(t)) \o Chars("no ") \o Strip(SubSeq(t, m.start, m.end - 1)))>>
                  ELSE <<>>
       IN cmd \o Commands(Tail(rows), lp, up, rem)
(* the un-configuration expression must match every line to be removed *)
Removable(rows, lp, up) == \A k \in 1..Len(rows) : (rows[k].word = "remove" /\ Matches(lp, Text(rows[k]))) => Search(up, Text(rows[k]), 1).ok

(* required lines that no line of the configuration with a letter equals *)
HasLetter(t) == \E i \in 1..Len(t) : t[i] \in ALPHA
Same(req, t, ws) == IF ws THEN Words(req) = Words(t) ELSE Strip(req) = Strip(t)
Missing(T, reqs, ws) == SelectSeq(reqs, LAMBDA q : ~\E i \in 1..T.n : HasLetter(T.txt[i]) /\ Same(q, T.txt[i], ws))
=============================================================================
