------------------------------ MODULE ListOps -------------------------------
(* The line list of a configuration used as a list: what every list operation
   gives, and what it leaves behind.  A state is that of Edits with
     num    identity -> the line number the line object carries
     fresh  whether nothing changed since the text was last parsed.
   Positions in operations count from 0, and from the end when negative. *)
EXTENDS Edits

Open(T) == Load(T) @@ [num |-> [i \in 1..T.n |-> i - 1], fresh |-> TRUE]
Reparse(st, o) == Open(CommitTree(st, o))

(* positions (from 1) that a slice [a:b:s] selects, s # 0 *)
Wrap(v, n) == IF v < 0 THEN v + n ELSE v
Between(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Picked(z, n) ==
  LET lo == IF z.s > 0 THEN 0 ELSE -1
      hi == IF z.s > 0 THEN n ELSE n - 1
      a == IF z.a.h THEN Between(Wrap(z.a.v, n), lo, hi) ELSE IF z.s > 0 THEN 0 ELSE n - 1
      b == IF z.b.h THEN Between(Wrap(z.b.v, n), lo, hi) ELSE IF z.s > 0 THEN n ELSE -1
      size == IF z.s > 0 THEN (IF b > a THEN (b - a + z.s - 1) \div z.s ELSE 0)
              ELSE (IF a > b THEN (a - b - z.s - 1) \div (-z.s) ELSE 0)
  IN [k \in 1..size |-> a + (k - 1) * z.s + 1]
InRange(i, n) == i < n /\ i >= -n
At(i, n) == Wrap(i, n) + 1
Drop(s, S) == LET RECURSIVE go(_, _) go(k, acc) == IF k > Len(s) THEN acc ELSE go(k + 1, IF k \in S THEN acc ELSE Append(acc, s[k])) IN go(1, <<>>)
Pick(s, ps) == [k \in 1..Len(ps) |-> s[ps[k]]]
RECURSIVE Times(_, _)
Times(s, k) == IF k <= 0 THEN <<>> ELSE s \o Times(s, k - 1)

(* new line objects for texts ts: they carry no number *)
Make(st, ts) ==
  LET n0 == Len(st.txt)
      ids == [k \in 1..Len(ts) |-> n0 + k] IN
  [st EXCEPT !.txt = @ \o [k \in 1..Len(ts) |-> RStrip(Chars(ts[k]))], !.par = @ \o ids,
             !.kids = @ \o [k \in 1..Len(ts) |-> <<>>], !.num = @ \o [k \in 1..Len(ts) |-> -1]]
Made(st, ts) == [k \in 1..Len(ts) |-> Len(st.txt) + k]
Renumber(st) == LET last(id) == MaxOf({k \in 1..Len(st.seq) : st.seq[k] = id}) IN
  [st EXCEPT !.num = [id \in 1..Len(@) |-> IF Live(st, id) THEN last(id) - 1 ELSE @[id]]]
Put(st, s) == [st EXCEPT !.seq = s, !.fresh = FALSE]

(* two line objects are equal when they carry the same number and text *)
Same(st, x, y) == st.num[x] = st.num[y] /\ st.txt[x] = st.txt[y]
Places(st, x, lo, hi) == {k \in 1..Len(st.seq) : k > lo /\ k <= hi /\ Same(st, st.seq[k], x)}

(* stable: lines are ordered by key, equal ones stay in order *)
Order(st, s, key, rev) ==
  LET K(x) == IF key = "len" THEN Len(st.txt[x]) ELSE st.num[x]
      RECURSIVE ins(_, _)
      ins(x, z) == IF z = <<>> THEN <<x>>
                   ELSE IF (IF rev THEN K(x) > K(Head(z)) ELSE K(x) < K(Head(z))) THEN <<x>> \o z
                   ELSE <<Head(z)>> \o ins(x, Tail(z))
      RECURSIVE go(_, _)
      go(k, acc) == IF k > Len(s) THEN acc ELSE go(k + 1, ins(s[k], acc))
  IN go(1, <<>>)

Gives(st, v) == [st |-> st, ret |-> v, exc |-> NONE]
Raises(st, e) == [st |-> st, ret |-> NONE, exc |-> e]

ListApply(st, op, o) ==
  LET m == op.m  n == Len(st.seq)  s == st.seq IN
  CASE m = "commit" -> Gives(Reparse(st, o), ANY)
    (* reading *)
    [] m = "get" -> IF InRange(op.i, n) THEN Gives(st, <<s[At(op.i, n)]>>) ELSE Raises(st, "IndexError")
    [] m = "slice" -> Gives(st, Pick(s, Picked(op, n)))
    [] m = "copy" -> Gives(st, s)
    [] m = "add" -> LET q == Make(st, op.ts) IN Gives(q, s \o Made(st, op.ts))
    [] m = "radd" -> LET q == Make(st, op.ts) IN Gives(q, Made(st, op.ts) \o s)
    [] m = "mul" -> Gives(st, Times(s, op.i))
    [] m = "iter" -> Gives(st, s)
    [] m = "reversed" -> Gives(st, Rev(s))
    [] m = "len" -> Gives(st, <<n, n - 1>>)
    [] m = "with_comments" -> Gives(st, Drop(s, 1..op.i))
    [] m = "no_comments" -> Gives(st, SelectSeq(Drop(s, 1..op.i), LAMBDA x : ~IsComment(st.txt[x], o.cd)))
    [] m = "count" -> IF InRange(op.i, n) THEN Gives(st, Cardinality(Places(st, s[At(op.i, n)], 0, n))) ELSE Gives(st, ANY)
    [] m = "in" -> IF InRange(op.i, n) THEN Gives(st, TRUE) ELSE Gives(st, ANY)
    [] m = "index" -> IF ~InRange(op.i, n) THEN Gives(st, ANY)
                      ELSE LET P == Places(st, s[At(op.i, n)], op.lo, op.hi) IN
                           IF P = {} THEN Raises(st, "ValueError") ELSE Gives(st, MinOf(P) - 1)
    [] m = "tops" -> \* roots with children, roots without; only where families are up to date
         IF ~st.fresh THEN Gives(st, ANY)
         ELSE LET top == SelectSeq(s, LAMBDA x : LET t == st.txt[x] IN t # <<>> /\ t[1] \notin WS /\ ~IsComment(t, o.cd)) IN
              Gives(st, <<SelectSeq(top, LAMBDA x : st.kids[x] # <<>>), SelectSeq(top, LAMBDA x : st.kids[x] = <<>>),
                          SelectSeq(s, LAMBDA x : st.kids[x] # <<>>)>>)
    (* changing *)
    [] m = "pop" -> IF InRange(op.i, n) THEN Gives(Put(st, Drop(s, {At(op.i, n)})), <<s[At(op.i, n)]>>) ELSE Raises(st, "IndexError")
    [] m = "remove" -> IF ~InRange(op.i, n) THEN Gives(st, ANY)
                       ELSE Gives(Put(st, Drop(s, {MinOf(Places(st, s[At(op.i, n)], 0, n))})), NONE)
    [] m = "del" -> IF InRange(op.i, n) THEN Gives(Reparse(Put(st, Drop(s, {At(op.i, n)})), o), NONE) ELSE Raises(st, "IndexError")
    [] m = "delslice" -> Gives(Reparse(Put(st, Drop(s, Rng(Picked(op, n)))), o), NONE)
    [] m = "set" -> LET q == Make(st, op.ts) IN
                    IF InRange(op.i, n) THEN Gives(Put(q, [s EXCEPT ![At(op.i, n)] = Made(st, op.ts)[1]]), NONE) ELSE Raises(q, "IndexError")
    [] m = "move" -> \* x[i] = x[j]
         IF InRange(op.i, n) /\ InRange(op.j, n) THEN Gives(Put(st, [s EXCEPT ![At(op.i, n)] = s[At(op.j, n)]]), NONE) ELSE Raises(st, "IndexError")
    [] m \in {"append", "extend", "iadd"} -> Gives(Put(Make(st, op.ts), s \o Made(st, op.ts)), ANY)
    [] m = "insert" ->
         LET p == Clamp(op.i, n)  x == Made(st, <<op.text>>)[1] IN
         Gives(Renumber(Put(Make(st, <<op.text>>), SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, n))), NONE)
    [] m = "reverse" -> Gives(Put(st, Rev(s)), NONE)
    [] m = "sort" -> Gives(Put(st, Order(st, s, op.key, op.rev)), NONE)
    [] m = "clear" -> Gives(Put(st, <<>>), NONE)
    [] m = "imul" -> Gives(Put(st, Times(s, op.i)), ANY)
ListReads == {"get", "slice", "copy", "add", "radd", "mul", "iter", "reversed", "len", "with_comments", "no_comments", "count", "in", "index", "tops"}
Reparses(op, r) == op.m = "commit" \/ (op.m \in {"del", "delslice"} /\ r.exc = NONE)
=============================================================================
