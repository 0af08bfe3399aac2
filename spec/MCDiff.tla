------------------------------- MODULE MCDiff -------------------------------
(* Every pair of small configurations.  The difference is complete and can be
   applied: leaving out the removed rows gives the paths of the second
   configuration, leaving out the added rows the first, in its order; and when
   every section has one indentation and occurs once, the unified text itself
   parses to either configuration. *)
EXTENDS HDiff, Json
CONSTANTS MaxLines, MaxIndent, Bodies, Emit
VARIABLES a, b, phase
vars == <<a, b, phase>>
Line(k, t) == Spaces(k) \o Chars(t)
Init == a = <<>> /\ b = <<>> /\ phase = 0
Next == \/ phase = 0 /\ Len(a) < MaxLines /\ \E k \in 0..MaxIndent, t \in Bodies : a' = Append(a, Line(k, t)) /\ UNCHANGED <<b, phase>>
        \/ phase = 0 /\ phase' = 1 /\ UNCHANGED <<a, b>>
        \/ phase = 1 /\ Len(b) < MaxLines /\ \E k \in 0..MaxIndent, t \in Bodies : b' = Append(b, Line(k, t)) /\ UNCHANGED <<a, phase>>
A == Parse(a, DiffOpt)
B == Parse(b, DiffOpt)
Uniq(ps) == LET RECURSIVE go(_, _)
                go(s, o) == IF s = <<>> THEN o ELSE go(Tail(s), IF Head(s) \in Rng(o) THEN o ELSE Append(o, Head(s)))
            IN go(ps, <<>>)
Without(rows, w) == SelectSeq(rows, LAMBDA r : r.word # w)
PathsOf(rows) == [k \in 1..Len(rows) |-> rows[k].path]
Regular(T) == (\A i, j \in 1..T.n : (i # j /\ ~IsRoot(T, i) /\ ~IsRoot(T, j) /\ T.par[i] = T.par[j]) => T.ind[i] = T.ind[j])
              /\ (\A i, j \in 1..T.n : (IsRoot(T, i) /\ T.ind[i] = 0) \/ ~IsRoot(T, i))
              /\ (\A i, j \in 1..T.n : i # j => Paths(T)[i] # Paths(T)[j])
(* both indent their common sections alike *)
Alike == \A i \in 1..A.n, j \in 1..B.n : (~IsRoot(A, i) /\ ~IsRoot(B, j) /\ Paths(A)[A.par[i]] = Paths(B)[B.par[j]]) => A.ind[i] = B.ind[j]
Complete == LET d == DiffOf(A, B) IN
  /\ PathsOf(Without(d, "add")) = Uniq(Paths(A))
  /\ Rng(PathsOf(Without(d, "remove"))) = Rng(Paths(B))
  /\ \A k, l \in 1..Len(d) : k # l => d[k].path # d[l].path
Placed == LET d == DiffOf(A, B) IN
  /\ \A k \in 1..Len(d) : d[k].word = "add" /\ Len(d[k].path) > 1 => \E l \in 1..(k - 1) : d[l].path = Prefix(d[k].path)
  /\ \A k, l \in 1..Len(d) : (d[k].word = "add" /\ d[l].word = "add" /\ Prefix(d[k].path) = Prefix(d[l].path) /\ k < l)
        => MinOf({i \in 1..B.n : Paths(B)[i] = d[k].path}) < MinOf({i \in 1..B.n : Paths(B)[i] = d[l].path})
NoChange == LET d == DiffOf(A, B) IN (\A k \in 1..Len(d) : d[k].word = "keep") <=> Rng(Paths(A)) = Rng(Paths(B))
TextOf(rows) == [k \in 1..Len(rows) |-> Text(rows[k])]
Rebuild == (phase = 1 /\ Regular(A) /\ Regular(B) /\ Alike) => LET d == DiffOf(A, B) IN
  /\ Parse(TextOf(Without(d, "add")), DiffOpt) = A
  /\ Rng(Paths(Parse(TextOf(Without(d, "remove")), DiffOpt))) = Rng(Paths(B))
Emitted == (Emit /\ phase = 1 /\ Len(b) = MaxLines) => PrintT("GEN " \o ToJson(<<[i \in 1..Len(a) |-> Str(a[i])], [i \in 1..Len(b) |-> Str(b[i])]>>))
=============================================================================
