----------------------------- MODULE CheckEdits -----------------------------
(* Editing histories recorded from the implementation.  A case is a starting
   configuration, a sequence of operations and, for every operation, what was
   observed after it: returned value or refusal, the text, the line numbers and,
   where the operation commits, the whole tree. *)
EXTENDS Edits, Source, Judge
VARIABLES c, done

Commits(op) == op.m \in {"commit", "atomic", "append_line", "pop", "remove", "del", "reverse"} \/ ("atomic" \in DOMAIN op /\ op.atomic)

JudgeTreeObs(T, w) ==
  Eq("committed-linenum", [i \in 1..T.n |-> i - 1], w.num)
  \o Eq("committed-indent", T.ind, w.ind) \o Eq("committed-comment", T.com, w.com)
  \o Eq("committed-parent", Nums(T.par), w.par) \o Eq("committed-children", Map(T.kids, Nums), w.kids)

Named(k, op, xs) == [i \in 1..Len(xs) |-> [xs[i] EXCEPT !.clause = op.m \o ":" \o @ \o "@" \o ToString(k)]]

(* saving: the file holds the lines; the file read again (an IOS-style text for
   brace syntaxes) gives the tree of those lines; saving that gives the same file *)
JudgeSave(st, ob, o) ==
  LET f == Str(FileOf(TextOf(st)))
      T == Tree(FileLines(f, o), o)
      lost == o.ign /\ ~o.fac /\ \E i \in 1..Len(st.seq) : st.txt[st.seq[i]] = <<>>
  IN IF "content" \notin DOMAIN ob THEN Eq("saves", "a file", ob)
     ELSE Eq("saved-file", f, ob.content)
          \o Eq("unchanged", Map(TextOf(st), Str), ob.text)
          \o Eq("reloaded-text", AllText(T), ob.tree.text)
          \o (IF lost THEN <<>> ELSE Holds("spec-reload-is-identity", ~o.ign \/ T.txt = SelectSeq(TextOf(st), LAMBDA t : ~IsBlank(t)) \/ T.txt = TextOf(st), 0))
          \o JudgeTreeObs(T, ob.tree)
          \o (IF T.txt = TextOf(st) THEN Eq("saved-again", f, ob.again) ELSE <<>>)

JudgeStep(r, op, ob, o) ==
  IF op.m = "save" THEN JudgeSave(r.st, ob, IF o.syn = "junos" THEN [o EXCEPT !.syn = "ios"] ELSE o)
  ELSE IF "either" \in DOMAIN r THEN Eq("text", Map(TextOf(r.st), Str), ob.text)
  ELSE IF "exc" \in DOMAIN ob \/ r.exc THEN
     Eq("refused", r.exc, "exc" \in DOMAIN ob)
     \o (IF r.exc /\ "text" \in DOMAIN ob THEN Eq("refusal-changes-nothing", Map(TextOf(r.st), Str), ob.text) ELSE <<>>)
  ELSE Eq("text", Map(TextOf(r.st), Str), ob.text)
       \o Eq("linenum", [i \in 1..Len(r.st.seq) |-> i - 1], ob.num)
       \o (IF ToJson(r.ret) = ToJson(ANY) THEN <<>> ELSE Eq("returned", r.ret, ob.ret))
       \o (IF Commits(op) THEN LET T == CommitTree(r.st, o) IN JudgeTreeObs(T, ob.tree) ELSE <<>>)
       \o (IF "fresh" \in DOMAIN ob THEN Eq("fresh-parse-agrees", ob.fresh, ob.tree) ELSE <<>>)

RECURSIVE JudgeFrom(_, _, _)
JudgeFrom(q, st, k) ==
  IF k > Len(q.ops) THEN <<>>
  ELSE LET r0 == Apply(st, q.ops[k], Opts(q))
           \* a blank insertion with nothing to insert at may be accepted: an atomic one then commits
           r == IF "either" \in DOMAIN r0 /\ q.ops[k].atomic /\ "exc" \notin DOMAIN q.obs.steps[k] THEN [r0 EXCEPT !.st = Commit(@, Opts(q))] ELSE r0
           bad == JudgeStep(r, q.ops[k], q.obs.steps[k], Opts(q))
       IN IF ~Settled(st, IF Commits(q.ops[k]) THEN Apply(st, [q.ops[k] EXCEPT !.atomic = FALSE], Opts(q)).st ELSE r.st, q.ops[k]) THEN <<>>
          ELSE IF bad # <<>> THEN Named(k, q.ops[k], bad) ELSE JudgeFrom(q, r.st, k + 1)

JudgeCase(q) ==
  LET T == TreeOf(q) IN
  IF "steps" \notin DOMAIN q.obs THEN Eq("history-runs", "steps", q.obs)
  ELSE IF q.obs.text # [i \in 1..T.n |-> Str(T.txt[i])] THEN Eq("initial-text", AllText(T), q.obs.text)
  ELSE JudgeFrom(q, Load(T), 1)

Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
