------------------------------ MODULE CheckLine -----------------------------
(* Withdrawing and resetting commands recorded from the implementation. *)
EXTENDS Commands, Judge
VARIABLES c, done
OText(T) == [i \in 1..T.n |-> IF Words(T.txt[i]) = <<>> THEN "" ELSE Str(Uncfg(T.txt[i]))]
JudgeUncfg(q) == LET T == TreeOf(q) IN
                 IF "uncfg" \notin DOMAIN q.obs THEN Eq("uncfgtext-succeeds", "texts", q.obs)
                 ELSE Eq("uncfgtext", OText(T), q.obs.uncfg)
RECURSIVE Resets(_, _)
Resets(txt, at) == IF at = <<>> THEN txt ELSE Resets(Reset(txt, at[1] + 1), Tail(at))
JudgeReset(q) ==
  LET T == TreeOf(q) IN
  IF "text" \notin DOMAIN q.obs THEN Eq("reset-succeeds", "lines", q.obs)
  ELSE LET want == Resets(T.txt, q.obs.at)  W == Parse(want, Opts(q)) IN
       Eq("lines-after-reset", Map(want, Str), q.obs.text)
       \o (IF q.atomic THEN Eq("linenum", [i \in 1..W.n |-> i - 1], q.obs.num) \o Eq("parent", Nums(W.par), q.obs.par) \o Eq("children", Map(W.kids, Nums), q.obs.kids) ELSE <<>>)
JudgeCase(q) == IF q.kind = "uncfg" THEN JudgeUncfg(q) ELSE JudgeReset(q)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
