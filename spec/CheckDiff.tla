----------------------------- MODULE CheckDiff ------------------------------
(* Differences of configurations recorded from the implementation. *)
EXTENDS HDiff, Judge
VARIABLES c, done

Pat(x) == [src |-> x.src, ic |-> x.ic, ng |-> x.ng,
           alts |-> [i \in 1..Len(x.alts) |-> [j \in 1..Len(x.alts[i]) |-> IF x.alts[i][j].k = "c" THEN [x.alts[i][j] EXCEPT !.s = Chars(@)] ELSE x.alts[i][j]]]]
DOpt(q) == [DiffOpt EXCEPT !.syn = q.syn]
DTree(lines, q) == Parse(Map(lines, Chars), DOpt(q))
TextT(p) == [k \in 1..Len(p) |-> Str(p[k])]
WordOf(w) == w
RowObs(r) == <<r.word, IndentOf(Text(r)), TextT(Prefix(r.path)), Str(Text(r))>>
JudgeHDiff(q) ==
  LET d == DiffOf(DTree(q.a, q), DTree(q.b, q)) IN
  IF q.obs.exc # "" THEN Holds("hdiff-succeeds", FALSE, q.obs)
  ELSE Eq("unified-diff", [k \in 1..Len(d) |-> Str(Unified(d[k]))], q.obs.unified)
       \o Eq("unified-diff-with-header", [k \in 1..Len(d) |-> Str(Unified(d[k]))], q.obs.headed)
       \o Eq("diff-rows", [k \in 1..Len(d) |-> RowObs(d[k])], q.obs.rows)
       \o Eq("inputs-unchanged", TRUE, q.obs.intact)

JudgeSync(q) ==
  LET d == DiffOf(DTree(q.a, q), DTree(q.b, q)) IN
  IF q.remove /\ ~Removable(d, Pat(q.lp), Pat(q.up)) THEN <<>>
  ELSE IF q.obs.exc # "" THEN Holds("sync_diff-succeeds", FALSE, q.obs)
  ELSE Eq("sync_diff", TextT(Commands(d, Pat(q.lp), Pat(q.up), q.remove)), q.obs.cmds)
       \o Eq("running-configuration-unchanged", TRUE, q.obs.intact)

JudgeAll(q) ==
  LET T == DTree(q.a, q)  reqs == Map(q.b, Chars) IN
  IF q.obs.exc # "" THEN Holds("req_cfgspec_all_diff-succeeds", FALSE, q.obs)
  ELSE Eq("req_cfgspec_all_diff", TextT(Missing(T, reqs, q.ws)), q.obs.missing)

JudgeCase(q) == CASE q.kind = "hdiff" -> JudgeHDiff(q) [] q.kind = "sync" -> JudgeSync(q) [] q.kind = "alldiff" -> JudgeAll(q)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
