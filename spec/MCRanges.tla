------------------------------ MODULE MCRanges ------------------------------
(* Every set of small numbers: compression and expansion are inverse, the
   compressed text is the shortest, and the operations act on the set. *)
EXTENDS Ranges
CONSTANTS MAXN, BASETEXT
VARIABLES S, last
B == IF BASETEXT = "" THEN NOINTF ELSE ReadBase(Chars(BASETEXT), FALSE, FALSE)
Init == S = {} /\ last = "init"
Next == \E n \in 0..MAXN : \/ n \notin S /\ S' = S \cup {n} /\ last' = "append"
                           \/ n \in S /\ S' = S \ {n} /\ last' = "remove"
RoundTrip == S # {} => ReadMembers(Compress(B, SortSet(S)), ~B.ok) = S
SameBase == (S # {} /\ B.ok) => ReadBase(Compress(B, SortSet(S)), FALSE, FALSE) = Vary(B, MinOf(S))
(* no text with fewer pieces, or the same pieces and fewer characters, is shorter:
   a run of k numbers costs min(list form, bounds form) *)
ListForm(a, b) == JoinWith([i \in 1..(b - a + 1) |-> NatChars(a + i - 1)], <<",">>)
BoundForm(a, b) == NatChars(a) \o <<"-">> \o NatChars(b)
RunsOf == {<<a, b>> \in S \X S : a <= b /\ \A k \in a..b : k \in S /\ (a - 1) \notin S /\ (b + 1) \notin S}
RECURSIVE SumMin(_)
SumMin(R) == IF R = {} THEN 0 ELSE LET r == CHOOSE x \in R : TRUE IN
             LET l == Len(ListForm(r[1], r[2]))  b == Len(BoundForm(r[1], r[2])) IN
             (IF r[1] = r[2] \/ l <= b THEN l ELSE b) + SumMin(R \ {r})
Shortest == (S # {} /\ ~B.ok) => Len(Compress(B, SortSet(S))) = SumMin(RunsOf) + Cardinality(RunsOf) - 1
=============================================================================
