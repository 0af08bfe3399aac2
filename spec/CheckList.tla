----------------------------- MODULE CheckList ------------------------------
(* Histories of list operations recorded from the implementation: after every
   one of them what it gave, which line objects the list holds, their text, and
   the whole tree where the text was parsed. *)
EXTENDS ListOps, Source, Judge
VARIABLES c, done

JudgeTreeObs(T, w) ==
  Eq("parsed-linenum", [i \in 1..T.n |-> i - 1], w.num)
  \o Eq("parsed-indent", T.ind, w.ind) \o Eq("parsed-comment", T.com, w.com)
  \o Eq("parsed-parent", Nums(T.par), w.par) \o Eq("parsed-children", Map(T.kids, Nums), w.kids)
JudgeListStep(r, op, ob, o) ==
  (IF r.exc = NONE THEN Eq("runs", NONE, ob.exc)
   ELSE Eq("refused", r.exc, ob.exc))
  \o Eq("lines", r.st.seq, ob.ids)
  \o Eq("text", Map(TextOf(r.st), Str), ob.text)
  \o (IF ToJson(r.ret) = ToJson(ANY) \/ r.exc # NONE THEN <<>> ELSE Eq("gives", r.ret, ob.ret))
  \o (IF "kind" \in DOMAIN ob THEN Eq("gives-a-line-list", "ConfigList", ob.kind) ELSE <<>>)
  \o (IF Reparses(op, r) THEN (IF "tree" \in DOMAIN ob THEN JudgeTreeObs(CommitTree(r.st, o), ob.tree) ELSE Eq("parsed", "a tree", ob)) ELSE <<>>)
RECURSIVE JudgeFrom(_, _, _)
JudgeFrom(q, st, k) ==
  IF k > Len(q.ops) THEN <<>>
  ELSE LET r == ListApply(st, q.ops[k], Opts(q))
           bad == JudgeListStep(r, q.ops[k], q.obs.steps[k], Opts(q))
       IN IF bad # <<>> THEN [i \in 1..Len(bad) |-> [bad[i] EXCEPT !.clause = q.ops[k].m \o ":" \o @]] ELSE JudgeFrom(q, r.st, k + 1)
JudgeCase(q) ==
  LET T == TreeOf(q) IN
  IF "steps" \notin DOMAIN q.obs THEN Eq("history-runs", "steps", q.obs)
  ELSE IF q.obs.text # [i \in 1..T.n |-> Str(T.txt[i])] THEN Eq("initial-text", AllText(T), q.obs.text)
  ELSE JudgeFrom(q, Open(T), 1)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
