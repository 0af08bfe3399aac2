----------------------------- MODULE CheckAudit -----------------------------
(* Enforcing required lines, recorded from the implementation. *)
EXTENDS Audit, Judge
VARIABLES c, done
Pat(x) == [src |-> x.src, ic |-> x.ic, ng |-> x.ng,
           alts |-> [i \in 1..Len(x.alts) |-> [j \in 1..Len(x.alts[i]) |-> IF x.alts[i][j].k = "c" THEN [x.alts[i][j] EXCEPT !.s = Chars(@)] ELSE x.alts[i][j]]]]
TextT(p) == [k \in 1..Len(p) |-> Str(p[k])]
RECURSIVE JudgeAsked(_, _, _)
JudgeAsked(q, T, k) ==
  IF k > Len(q.asks) THEN <<>>
  ELSE LET a == q.asks[k]  o == q.obs.outs[k]  lp == Pat(a.lp)  up == Pat(a.up)  reqs == Map(a.reqs, Chars) IN
       (IF ~WellAsked(T, lp, up, reqs) THEN <<>>
        ELSE IF o.exc # "" THEN Holds("req_cfgspec_excl_diff-succeeds", FALSE, o)
        ELSE Eq("req_cfgspec_excl_diff", TextT(ExclDiff(T, lp, up, reqs)), o.cmds) \o Eq("the-configuration-is-kept", TRUE, o.intact))
       \o JudgeAsked(q, T, k + 1)
JudgeCase(q) == IF "outs" \notin DOMAIN q.obs THEN Eq("the-configuration-is-parsed", "answers", q.obs)
                ELSE JudgeAsked(q, Parse(Map(q.a, Chars), [cd |-> {"!"}, ign |-> TRUE, fac |-> FALSE, syn |-> q.syn]), 1)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
