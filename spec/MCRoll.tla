------------------------------- MODULE MCRoll -------------------------------
(* Every pair of small configurations: the commands of Delta bring a device from
   one to the other, those of the reverse direction back, and none is needed iff
   both hold the same lines. *)
EXTENDS Rollback, Json
CONSTANTS MaxLines, MaxIndent, Bodies, Emit
VARIABLES a, b, phase
vars == <<a, b, phase>>
Line(k, t) == Spaces(k) \o Chars(t)
Init == a = <<>> /\ b = <<>> /\ phase = 0
Next == \/ phase = 0 /\ Len(a) < MaxLines /\ \E k \in 0..MaxIndent, t \in Bodies : a' = Append(a, Line(k, t)) /\ UNCHANGED <<b, phase>>
        \/ phase = 0 /\ phase' = 1 /\ UNCHANGED <<a, b>>
        \/ phase = 1 /\ Len(b) < MaxLines /\ \E k \in 0..MaxIndent, t \in Bodies : b' = Append(b, Line(k, t)) /\ UNCHANGED <<a, phase>>
A == Device(a)
B == Device(b)
Forward == EnterAll(A, Delta(A, B)) = B
Back == EnterAll(EnterAll(A, Delta(A, B)), Delta(B, A)) = A
Idle == (Delta(A, B) = <<>>) <=> A = B
(* a device holds the sections of its lines *)
Closed == \A p \in A : Len(p) > 1 => Front(p) \in A
ClosedOn == \A p \in EnterAll(A, Delta(A, B)) : Len(p) > 1 => Front(p) \in EnterAll(A, Delta(A, B))
Emitted == (Emit /\ phase = 1 /\ Len(b) = MaxLines) => PrintT("GEN " \o ToJson(<<[i \in 1..Len(a) |-> Str(a[i])], [i \in 1..Len(b) |-> Str(b[i])]>>))
=============================================================================
