------------------------------ MODULE MCAudit -------------------------------
(* Every small configuration, search and list of required lines: a device that
   enters the commands holds no line that matches and is not required, holds the
   required ones, and keeps the rest. *)
EXTENDS Audit, Json
CONSTANTS MaxLines, MaxReqs, MaxIndent, Bodies, Reqs, Searches, Emit
VARIABLES lines, reqs, lp, phase
vars == <<lines, reqs, lp, phase>>
All == [src |-> ".*", ic |-> FALSE, ng |-> 0, alts |-> << <<[k |-> "r", cls |-> ".", lo |-> 0, hi |-> -1]>> >>]
Init == lines = <<>> /\ reqs = <<>> /\ lp \in Searches /\ phase = 0
Next == \/ phase = 0 /\ Len(lines) < MaxLines /\ \E k \in 0..MaxIndent, t \in Bodies : lines' = Append(lines, Spaces(k) \o Chars(t)) /\ UNCHANGED <<reqs, lp, phase>>
        \/ phase = 0 /\ phase' = 1 /\ UNCHANGED <<lines, reqs, lp>>
        \/ phase = 1 /\ Len(reqs) < MaxReqs /\ \E t \in Reqs : reqs' = Append(reqs, Chars(t)) /\ UNCHANGED <<lines, lp, phase>>
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED <<lines, reqs, lp>>
P == LitPat(lp)
T0 == Parse(lines, RollOpt)
S == Device(lines)
Asked == WellAsked(T0, P, All, reqs)
After == Apply(S, ExclDiff(T0, P, All, reqs))
Matching(p) == Matches(P, Leaf(p))
(* a required line inside a section that has to go would go with it *)
Apart == LET V == Violators(T0, P, reqs) IN \A i \in 1..T0.n : Matches(P, T0.txt[i]) /\ Required(reqs, T0.txt[i]) => Anc(T0, i) \cap V = {}
Enforced == (phase = 2 /\ Asked /\ Apart) =>
  LET D == After  V == Violators(T0, P, reqs)  VP == {PathIn(T0, i) : i \in V} IN
  /\ \A p \in D : (Matching(p) /\ Strip(Leaf(p)) \notin Rng(reqs)) => FALSE
  /\ \A r \in Rng(reqs) : \E p \in D : Leaf(p) = r
  /\ \A p \in S : (\A v \in VP : ~UnderOrAt(v, p)) => p \in D
  /\ \A p \in D : p \in S \/ (Len(p) = 1 /\ Leaf(p) \in Rng(reqs))
(* nothing is left to do: asking again changes nothing *)
Settled == (phase = 2 /\ Asked /\ Violators(T0, P, reqs) = {} /\ \A r \in Rng(reqs) : Matches(P, r)) => S \subseteq After /\ \A p \in After : p \in S \/ Leaf(p) \in Rng(reqs)
Emitted == (Emit /\ phase = 2 /\ Asked) => PrintT("GEN " \o ToJson(<<[i \in 1..Len(lines) |-> Str(lines[i])], [i \in 1..Len(reqs) |-> Str(reqs[i])], lp>>))
=============================================================================
