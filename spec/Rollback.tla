------------------------------ MODULE Rollback ------------------------------
(* Turning one configuration into another with commands.  A device holds a set of
   family paths (the order of lines does not count); a sequence of command lines
   is entered section by section: "no X" withdraws X with its family, any other
   command adds itself below the section it is indented under.  Some settings
   have one value: a new value replaces the old one. *)
EXTENDS ConfTree

RollOpt == [cd |-> {"!", "#"}, ign |-> TRUE, fac |-> FALSE, syn |-> "ios"]
JoinedWords(t) == JoinWith(Words(t), <<" ">>)
PathIn(T, i) == LET g == Geneology(T, i) IN [k \in 1..Len(g) |-> JoinedWords(T.txt[g[k]])]
(* comments and the closing "end" are not commands *)
Command(t) == Strip(t) # <<>> /\ Strip(t)[1] \notin {"!", "#"} /\ t # Chars("end")
Commands(lines) == Parse(SelectSeq(lines, Command), RollOpt)
PathSeq(lines) == LET T == Commands(lines) IN [i \in 1..T.n |-> PathIn(T, i)]
Device(lines) == Rng(PathSeq(lines))

Begins(t, s) == StartsAt(t, 1, Chars(s))
IsNo(t) == Begins(t, "no ")
Front(p) == SubSeq(p, 1, Len(p) - 1)
Leaf(p) == p[Len(p)]
UnderOrAt(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
SameSetting(p, q) ==
  Len(p) = 2 /\ Len(q) = 2 /\ p[1] = q[1]
  /\ \/ Begins(p[1], "interface") /\ \E w \in {"ip address", "description"} : Begins(p[2], w) /\ Begins(q[2], w)
     \/ Begins(p[1], "vlan") /\ Begins(p[2], "name") /\ Begins(q[2], "name")
Target(p) == Append(Front(p), SubSeq(Leaf(p), 4, Len(Leaf(p))))
Enter(S, p) == IF IsNo(Leaf(p)) THEN {q \in S : ~UnderOrAt(Target(p), q)}
               ELSE {q \in S : ~SameSetting(p, q)} \cup {p}
RECURSIVE EnterAll(_, _)
EnterAll(S, ps) == IF ps = <<>> THEN S ELSE EnterAll(Enter(S, Head(ps)), Tail(ps))
Apply(S, lines) == EnterAll(S, PathSeq(lines))

(* no command is idle: a withdrawn line is there and unwanted, an added one is
   wanted; one that is there already is the section of a later command *)
Needed(S, U, lines) ==
  LET ps == PathSeq(lines) IN
  \A k \in 1..Len(ps) :
     IF IsNo(Leaf(ps[k])) THEN Target(ps[k]) \in S \ U
     ELSE ps[k] \in U /\ (ps[k] \in S => \E l \in (k + 1)..Len(ps) : UnderOrAt(ps[k], ps[l]))

(* one such sequence: first what has to go, topmost first, then what is new *)
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Goes(S, U) == {p \in S \ U : Len(p) = 1 \/ Front(p) \in U}
NoOf(p) == Append(Front(p), Chars("no ") \o Leaf(p))
RECURSIVE ByDepth(_, _)
ByDepth(S, d) == IF S = {} THEN <<>> ELSE SeqOfSet({p \in S : Len(p) = d}) \o ByDepth({p \in S : Len(p) # d}, d + 1)
Delta(S, U) == LET g == SeqOfSet(Goes(S, U)) IN [k \in 1..Len(g) |-> NoOf(g[k])] \o ByDepth(U \ S, 1)
=============================================================================
