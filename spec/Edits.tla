------------------------------- MODULE Edits --------------------------------
(* Editing a configuration.  Between commits the lines keep the identity and the
   family they had when they were last parsed; new lines belong to no family
   until the next commit, which parses the text afresh.

   State:  seq   the identities of the lines, in order
           txt   identity -> characters (also of removed lines)
           par   identity -> identity of the parent (itself for a root)
           kids  identity -> sequence of identities
   An operation is a record (from JSON); Apply(st, op, o) gives
     [st, ret, exc]  the next state, what is returned ("~any~": not specified),
     and whether the operation is refused. *)
EXTENDS Queries

ANY == "~any~"
Pat(x) == [src |-> x.src, ic |-> x.ic, ng |-> x.ng,
           alts |-> [i \in 1..Len(x.alts) |-> [a \in 1..Len(x.alts[i]) |->
              IF x.alts[i][a].k = "c" THEN [k |-> "c", s |-> Chars(x.alts[i][a].s)] ELSE x.alts[i][a]]]]
Repl(r) == [i \in 1..Len(r) |-> IF r[i].k = "lit" THEN [k |-> "lit", s |-> Chars(r[i].s)] ELSE r[i]]

Load(T) == [seq |-> [i \in 1..T.n |-> i], txt |-> T.txt, par |-> T.par, kids |-> T.kids]
TextOf(st) == [i \in 1..Len(st.seq) |-> st.txt[st.seq[i]]]
CommitTree(st, o) == Tree(TextOf(st), o)
Commit(st, o) == Load(CommitTree(st, o))

-----------------------------------------------------------------------------
(* elementary changes *)
Pos(st, id) == CHOOSE i \in 1..Len(st.seq) : st.seq[i] = id
Live(st, id) == \E i \in 1..Len(st.seq) : st.seq[i] = id
AddAt(st, p, t) == \* the new line becomes line number p (1-based)
  LET id == Len(st.txt) + 1 IN
  [seq |-> SubSeq(st.seq, 1, p - 1) \o <<id>> \o SubSeq(st.seq, p, Len(st.seq)),
   txt |-> Append(st.txt, RStrip(t)), par |-> Append(st.par, id), kids |-> Append(st.kids, <<>>)]
(* one copy at (d = 0: before, 1: after) each of the lines ids (given in order) *)
RECURSIVE AddAll(_, _, _, _)
AddAll(st, ids, d, t) ==
  IF ids = <<>> THEN st
  ELSE AddAll(AddAt(st, Pos(st, ids[Len(ids)]) + d, t), SubSeq(ids, 1, Len(ids) - 1), d, t)

RECURSIVE Family(_, _)
Family(st, id) == {id} \cup UNION {Family(st, st.kids[id][k]) : k \in 1..Len(st.kids[id])}
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
Remove(st, id, recurse) ==
  IF ~Live(st, id) THEN st
  ELSE LET p == st.par[id]
           gone == IF recurse THEN Family(st, id) ELSE {id}
           own == st.kids[id]
           up == IF p # id THEN [st.kids EXCEPT ![p] = Without(@, {id})] ELSE st.kids
           order(S) == LET RECURSIVE go(_) go(R) == IF R = {} THEN <<>> ELSE
                             LET x == CHOOSE x \in R : \A y \in R : Pos(st, x) <= Pos(st, y) IN <<x>> \o go(R \ {x}) IN go(S)
       IN IF recurse THEN [st EXCEPT !.seq = Without(@, gone), !.kids = up]
          ELSE [st EXCEPT !.seq = Without(@, gone),
                          !.par = [i \in 1..Len(st.par) |-> IF i # id /\ i \in Rng(own) THEN (IF p = id THEN i ELSE p) ELSE st.par[i]],
                          !.kids = IF p = id THEN [up EXCEPT ![id] = <<>>]
                                   ELSE [up EXCEPT ![p] = order(Rng(@) \cup Rng(own)), ![id] = <<>>]]
RECURSIVE RemoveAll(_, _)
RemoveAll(st, ids) == IF ids = <<>> THEN st ELSE RemoveAll(Remove(st, ids[Len(ids)], TRUE), SubSeq(ids, 1, Len(ids) - 1))

(* substitution in one line; a line left blank disappears with its family *)
SubLine(st, id, p, repl) ==
  LET t == Sub(p, repl, st.txt[id]) IN
  IF IsBlank(t) THEN [st |-> Remove(st, id, TRUE), ret |-> NONE]
  ELSE [st |-> [st EXCEPT !.txt[id] = RStrip(t)], ret |-> Str(RStrip(t))]
RECURSIVE SubAll(_, _, _, _, _)
SubAll(st, ids, p, repl, acc) ==
  IF ids = <<>> THEN [st |-> st, ret |-> acc]
  ELSE LET r == SubLine(st, Head(ids), p, repl) IN SubAll(r.st, Tail(ids), p, repl, Append(acc, r.ret))

-----------------------------------------------------------------------------
Matching(st, p) == SelectSeq(st.seq, LAMBDA id : Matches(p, st.txt[id]))
Excluded(st, id, op) == op.hasex /\ Matches(Pat(op.ex), st.txt[id])
Kept(st, ids, op) == SelectSeq(ids, LAMBDA id : ~Excluded(st, id, op))
StrsOf(st, ids) == [k \in 1..Len(ids) |-> Str(st.txt[ids[k]])]
FoundIn(t, p) == t # <<>> /\ (Contains(t, Chars(p.src)) \/ Matches(p, t))

Done(st, ret) == [st |-> st, ret |-> ret, exc |-> FALSE]
Refused(st) == [st |-> st, ret |-> NONE, exc |-> TRUE]
Either(st) == [st |-> st, ret |-> ANY, exc |-> FALSE, either |-> TRUE]   \* nothing to do: refused or ignored
Atomic(r, op, o) == IF op.atomic THEN [r EXCEPT !.st = Commit(@, o)] ELSE r
Blank(op, o) == o.ign /\ IsBlank(Chars(op.text))

Last(st, id) == \* the last line of the family
  LET F == Family(st, id) IN CHOOSE x \in F : \A y \in F : Pos(st, y) <= Pos(st, x)
(* descendants of a line, by position *)
ByPos(st, S) == SelectSeq(st.seq, LAMBDA x : x \in S)

(* operations on one line *)
ApplyLine(st, op, o, id) ==
  LET m == op.m  t == Chars(op.text) IN
  CASE m = "obj_insert_before" -> IF Blank(op, o) THEN Refused(st) ELSE Done(AddAll(st, <<id>>, 0, t), NONE)
    [] m = "obj_insert_after" -> IF Blank(op, o) THEN Refused(st) ELSE Done(AddAll(st, <<id>>, 1, t), NONE)
    [] m = "append_to_family" ->
         LET ind == IndentOf(st.txt[id])
             u == IF op.auto THEN Spaces(ind + op.width) \o LStrip(t)
                  ELSE IF op.indent > 0 THEN Spaces(ind + op.indent) \o LStrip(t) ELSE t
         IN IF Blank(op, o) THEN Refused(st) ELSE Done(AddAll(st, <<Last(st, id)>>, 1, u), NONE)
    [] m = "obj_delete" -> Done(Remove(st, id, op.recurse), TRUE)
    [] m = "delete_children_matching" ->
         LET ks == st.kids[id]  hit(k) == FoundIn(st.txt[ks[k]], Pat(op.p)) IN
         Done(RemoveAll(st, SelectSeq(ks, LAMBDA x : FoundIn(st.txt[x], Pat(op.p)))),
              [k \in 1..Len(ks) |-> IF hit(k) THEN "~deleted~" ELSE Str(st.txt[ks[k]])])
    [] m \in {"re_sub", "obj_replace"} ->
         IF Excluded(st, id, op) THEN Done(st, Str(st.txt[id]))
         ELSE LET r == SubLine(st, id, Pat(op.p), Repl(op.repl)) IN Done(r.st, r.ret)
    [] m = "set_text" -> Done([st EXCEPT !.txt[id] = RStrip(t)], ANY)
LINEOPS == {"obj_insert_before", "obj_insert_after", "append_to_family", "obj_delete", "delete_children_matching", "re_sub", "obj_replace", "set_text"}
RECURSIVE EachLine(_, _, _, _)
EachLine(st, op, o, ids) ==
  IF ids = <<>> THEN Done(st, ANY)
  ELSE LET r == ApplyLine(st, op, o, Head(ids)) IN IF r.exc THEN r ELSE EachLine(r.st, op, o, Tail(ids))

(* a Python index into a list of n elements for insertion *)
Clamp(i, n) == IF i < 0 THEN (IF n + i < 0 THEN 0 ELSE n + i) ELSE IF i > n THEN n ELSE i

(* whether a parent is excluded must not depend on the substitutions made below another one *)
Settled(st, st2, op) ==
  op.m \in {"replace_children", "replace_all_children"} /\ op.hasex =>
    \A k \in 1..Len(st.seq) : LET id == st.seq[k] IN Excluded(st, id, op) = Excluded(st2, id, op)

Apply(st, op, o) ==
  LET m == op.m
      n == Len(st.seq)
      at == IF n = 0 THEN 0 ELSE (op.f * n) \div 1000 + 1         \* the line a line operation is called on
      P == LineRx(Pat(op.p), op.exact, op.ws)
  IN
  CASE m = "commit" \/ m = "atomic" -> Done(Commit(st, o), ANY)
    [] m = "save" -> Done(st, ANY)
    [] m \in {"insert_before", "insert_after", "cl_insert_before", "cl_insert_after"} ->
         LET ids == Matching(st, P)
             t == IF op.nvi >= 0 THEN Spaces(op.nvi) \o LStrip(Chars(op.text)) ELSE Chars(op.text)
             d == IF m \in {"insert_after", "cl_insert_after"} THEN 1 ELSE 0
         IN IF Blank(op, o) THEN (IF ids = <<>> THEN Either(st) ELSE Refused(st))
            ELSE Atomic(Done(AddAll(st, ids, d, t), IF m \in {"insert_before", "insert_after"} THEN StrsOf(st, ids) ELSE NONE), op, o)
    [] m = "insert_after_child" ->
         LET ps == Kept(st, Matching(st, P), op)
             ks == Concat([i \in 1..Len(ps) |-> SelectSeq(Kept(st, st.kids[ps[i]], op), LAMBDA x : Matches(Pat(op.c), st.txt[x]))])
         IN IF Blank(op, o) THEN (IF ks = <<>> THEN Either(st) ELSE Refused(st))
            ELSE Atomic(Done(AddAll(st, ByPos(st, Rng(ks)), 1, Chars(op.text)), ANY), op, o)
    [] m = "append_line" ->
         IF Blank(op, o) THEN Refused(st)
         ELSE LET s2 == Commit(AddAt(st, n + 1, Chars(op.text)), o) IN Done(s2, Str(RStrip(Chars(op.text))))
    [] m = "prepend_line" -> Done(AddAt(st, 1, Chars(op.text)), Str(RStrip(Chars(op.text))))
    [] m = "cl_insert" -> Done(AddAt(st, Clamp(op.i, n) + 1, Chars(op.text)), NONE)
    [] m = "delete_lines" -> Done(RemoveAll(st, Matching(st, P)), NONE)
    [] m = "replace_lines" ->
         LET r == SubAll(st, Kept(st, Matching(st, P), op), Pat(op.p), Repl(op.repl), <<>>) IN Atomic(Done(r.st, r.ret), op, o)
    [] m \in {"replace_children", "replace_all_children"} ->
         LET ps == Kept(st, Matching(st, P), op)
             offspring(id) == IF m = "replace_children" THEN st.kids[id] ELSE ByPos(st, Family(st, id) \ {id})
             RECURSIVE uniq(_, _)
             uniq(s, acc) == IF s = <<>> THEN acc
                             ELSE IF \E k \in 1..Len(acc) : acc[k] = Head(s) THEN uniq(Tail(s), acc) ELSE uniq(Tail(s), Append(acc, Head(s)))
             ks == uniq(Concat([i \in 1..Len(ps) |-> offspring(ps[i])]), <<>>)
             ts == SelectSeq(Kept(st, ks, op), LAMBDA x : Matches(Pat(op.c), st.txt[x]))
             r == SubAll(st, ts, Pat(op.c), Repl(op.repl), <<>>)
         IN Atomic(Done(r.st, r.ret), op, o)
    [] m = "each" -> \* for obj in find_objects(p): obj.<op>(...)
         EachLine(st, op.op, o, IF op.rev THEN Rev(Matching(st, P)) ELSE Matching(st, P))
    [] m \in {"pop", "remove", "del"} ->
         IF n = 0 THEN Done(st, ANY)
         ELSE LET s2 == [st EXCEPT !.seq = SubSeq(@, 1, at - 1) \o SubSeq(@, at + 1, n)] IN
              Done(Commit(s2, o), ANY)
    [] m = "reverse" -> Done(Commit([st EXCEPT !.seq = Rev(@)], o), ANY)
    [] m \in LINEOPS -> IF n = 0 THEN Done(st, ANY) ELSE ApplyLine(st, op, o, st.seq[at])
=============================================================================
