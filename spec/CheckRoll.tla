----------------------------- MODULE CheckRoll ------------------------------
(* Diff(old, new).diff() and .rollback() recorded from the implementation. *)
EXTENDS Rollback, Judge
VARIABLES c, done
LinesOf(s) == Map(s, Chars)
SetT(S) == Cardinality(S)
One(name, S, U, cmds) ==
  LET l == LinesOf(cmds) IN
  Holds(name \o "-reaches-the-other-configuration", Apply(S, l) = U, cmds)
  \o Holds(name \o "-enters-no-idle-command", Needed(S, U, l), cmds)
  \o Holds(name \o "-empty-iff-nothing-differs", (cmds = <<>>) <=> (S = U), cmds)
JudgeCase(q) ==
  LET S == Device(LinesOf(q.a))  U == Device(LinesOf(q.b)) IN
  IF q.obs.exc # "" THEN Holds("diff-succeeds", FALSE, q.obs)
  ELSE One("diff", S, U, q.obs.diff) \o One("rollback", U, S, q.obs.rollback)
       \o Eq("inputs-unchanged", TRUE, q.obs.intact)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
