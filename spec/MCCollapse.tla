----------------------------- MODULE MCCollapse -----------------------------
(* Summarisation of every set of networks in a small address space. *)
EXTENDS IPNet
CONSTANT MAXSET
VARIABLE S
W == BITS
Networks == {[a |-> <<v>>, p |-> p] : v \in 0..(BASE - 1), p \in 0..W} 
Nets == {n \in Networks : Net(n) = n.a}
Members(o) == {v \in 0..(BASE - 1) : v \div 2 ^ (W - o.p) = o.a[1] \div 2 ^ (W - o.p)}
Cover(T) == UNION {Members(o) : o \in T}
Init == S = {}
Next == \E n \in Nets : n \notin S /\ Cardinality(S) < MAXSET /\ S' = S \cup {n}
Spec == Init /\ [][Next]_S
C == Collapse(S)
SameAddresses == Cover(Rng(C)) = Cover(S)
Ascending == \A i \in 1..(Len(C) - 1) : MaxOf(Members(C[i])) < MinOf(Members(C[i + 1]))
Minimal == \* no two results are halves of one network, so no shorter list exists
  \A i, j \in 1..Len(C) : i # j => ~(C[i].p = C[j].p /\ C[i].p > 0 /\ Network(C[i].a, C[i].p - 1) = Network(C[j].a, C[j].p - 1))
Emit == PrintT("NETS " \o ToString({<<n.a[1], n.p>> : n \in S})) 
=============================================================================
