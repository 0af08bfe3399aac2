----------------------------- MODULE CheckIntf ------------------------------
(* Interface name objects and Cisco ranges recorded from the implementation. *)
EXTENDS Intf, Ranges, Judge
VARIABLES c, done

NONE == "~None~"
EXC == "~exception~"
OptT(t) == IF t = <<>> THEN NONE ELSE Str(t)
OptN(n) == IF n < 0 THEN NONE ELSE ToString(n)
Comps(x, xr) == <<Str(x.prefix), OptT(Slot(x)), OptT(Card(x)), IF xr THEN OptT(Proc(x)) ELSE NONE, OptT(Port(x)), OptN(x.sub), OptN(x.chan), OptT(x.cls)>>
SlotTail(x) == Number(x) \o Suffix(x)
SnapOf(x, xr) ==
  [comps |-> Comps(x, xr), sep |-> IF Len(x.parts) > 1 THEN "/" ELSE NONE, str |-> Str(ShowIntf(x)), name |-> Str(ShowIntf(x)),
   number |-> Str(Number(x)), repr |-> "<Cisco" \o (IF xr THEN "IOSXR" ELSE "IOS") \o "Interface " \o Str(ShowIntf(x)) \o ">",
   tail |-> IF xr THEN "" ELSE Str(SlotTail(x)), again |-> <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>]
RECURSIVE EqAll(_, _, _)
EqAll(ns, e, o) == IF ns = {} THEN <<>> ELSE LET f == CHOOSE y \in ns : TRUE IN Eq("interface-" \o f, e[f], o[f]) \o EqAll(ns \ {f}, e, o)
SameSnap(x, xr, o) == LET e == SnapOf(x, xr) IN EqAll(DOMAIN e, e, o)

Assign(x, a) ==
  LET n == Len(x.parts) IN
  CASE a.at = "port" -> SetPart(x, n, a.n)
    [] a.at = "slot" -> IF n > 1 THEN SetPart(x, 1, a.n) ELSE x
    [] a.at = "card" -> IF n > 2 THEN SetPart(x, 2, a.n) ELSE x
    [] a.at = "subinterface" -> [x EXCEPT !.sub = a.n]
    [] a.at = "channel" -> [x EXCEPT !.chan = a.n]
    [] a.at = "interface_class" -> [x EXCEPT !.cls = Chars(a.s)]
    [] a.at = "prefix" -> [x EXCEPT !.prefix = Strip(Chars(a.s))]
RECURSIVE JudgeAssigns(_, _, _, _, _)
JudgeAssigns(x, xr, as, obs, k) ==
  IF k > Len(as) THEN <<>>
  ELSE LET y == Assign(x, as[k]) IN SameSnap(y, xr, obs[k]) \o JudgeAssigns(y, xr, as, obs, k + 1)

JudgeIntf(q) ==
  LET x == ReadIntf(Chars(q.name), q.xr) IN
  IF ~x.ok THEN <<>>
  ELSE IF q.obs.exc # "" THEN Holds("interface-accepted", FALSE, q.obs)
  ELSE SameSnap(x, q.xr, q.obs.snap) \o JudgeAssigns(x, q.xr, q.sets, q.obs.sets, 1)

JudgeIPair(q) ==
  LET x == ReadIntf(Chars(q.x), q.xr)  y == ReadIntf(Chars(q.y), q.xr)
      e == x = y IN
  IF ~x.ok \/ ~y.ok THEN <<>>
  ELSE IF q.obs.exc # "" THEN Holds("interfaces-compare", FALSE, q.obs)
  ELSE Eq("interface-equality", <<e, ~e>>, <<q.obs.eq, q.obs.ne>>)
       \o Holds("equal-interfaces-hash-equal", e => q.obs.hash, q.obs)
       \o (IF x.prefix = y.prefix /\ (Key(x) # Key(y) \/ x.cls = y.cls) /\ KeysOrdered(Key(x), Key(y), 1)
           THEN Eq("interface-order", <<IntfLess(x, y), IntfLess(y, x)>>, <<q.obs.lt, q.obs.gt>>) ELSE <<>>)

RECURSIVE InsI(_, _)
InsI(x, s) == IF s = <<>> THEN <<x>> ELSE IF IntfLess(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o InsI(x, Tail(s))
RECURSIVE SortI(_)
SortI(s) == IF s = <<>> THEN <<>> ELSE InsI(s[Len(s)], SortI(SubSeq(s, 1, Len(s) - 1)))
JudgeISort(q) == LET s == SortI([i \in 1..Len(q.xs) |-> ReadIntf(Chars(q.xs[i]), q.xr)]) IN
                 IF \E i \in 1..Len(q.xs) : ~ReadIntf(Chars(q.xs[i]), q.xr).ok THEN <<>> ELSE
                 Eq("interfaces-sort", [i \in 1..Len(s) |-> Str(ShowIntf(s[i]))], q.obs.xs)

(* ---- ranges: the state is the set of members (numbers; the rest of an
   interface name is fixed by the first element) ---- *)
RSnap(base, S) ==
  LET m == SortSet(S)  nm == [i \in 1..Len(m) |-> Str(MemberText(base, m[i]))] IN
  [iter |-> nm, len |-> Len(m), strs |-> nm, strset |-> nm, auto |-> nm, autoset |-> nm, compressed |-> Str(Compress(base, m)),
   again |-> TRUE, indexed |-> nm]
SameRange(clause, base, S, o) == LET e == RSnap(base, S) IN
  IF o.exc # "" THEN Holds(clause \o "-works", FALSE, o) ELSE
  Eq(clause \o "-iterates", e.iter, o.iter) \o Eq(clause \o "-length", e.len, o.len) \o Eq(clause \o "-as_list-str", e.strs, o.strs)
  \o Eq(clause \o "-as_set-str", e.strset, o.strset) \o Eq(clause \o "-as_list", e.auto, o.auto) \o Eq(clause \o "-as_set", e.autoset, o.autoset)
  \o Eq(clause \o "-compressed", e.compressed, o.compressed) \o Eq(clause \o "-expands-again", e.again, o.again) \o Eq(clause \o "-indexed", e.indexed, o.indexed)

RStep(S, op) == \* [ok, S]: the effect of one operation
  CASE op.op = "append" -> IF op.n \in S THEN [ok |-> op.quiet, S |-> S] ELSE [ok |-> TRUE, S |-> S \cup {op.n}]
    [] op.op = "remove" -> IF op.n \in S THEN [ok |-> TRUE, S |-> S \ {op.n}] ELSE [ok |-> op.quiet, S |-> S]
    [] op.op = "add" -> [ok |-> TRUE, S |-> S \cup Rng(op.ns)]
    [] op.op = "sub" -> [ok |-> TRUE, S |-> S \ Rng(op.ns)]
    [] op.op = "del" -> LET m == SortSet(S) IN IF op.n < Len(m) THEN [ok |-> TRUE, S |-> S \ {m[op.n + 1]}] ELSE [ok |-> FALSE, S |-> S]
    [] op.op = "in" -> [ok |-> TRUE, S |-> S]
RECURSIVE JudgeRangeOps(_, _, _, _, _)
JudgeRangeOps(base, S, ops, obs, k) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET r == RStep(S, ops[k]) IN
       Eq("range-" \o ops[k].op \o "-outcome", <<r.ok, ops[k].op = "in" /\ ops[k].n \in S>>, <<obs[k].ok, obs[k].member>>)
       \o SameRange("range-after-" \o ops[k].op, base, r.S, obs[k].snap)
       \o Holds("other-operand-unchanged", obs[k].other, obs[k])
       \o JudgeRangeOps(base, r.S, ops, obs, k + 1)
JudgeRange(q) ==
  LET b == ReadBase(Chars(q.text), q.ints, q.xr) IN
  IF q.obs.exc # "" THEN Holds("range-accepted", FALSE, q.obs)
  ELSE SameRange("range", b, ReadMembers(Chars(q.text), q.ints), q.obs.snap)
       \o JudgeRangeOps(b, ReadMembers(Chars(q.text), q.ints), q.ops, q.obs.ops, 1)
JudgeREq(q) ==
  LET e == Vary(ReadBase(Chars(q.x), q.ints, q.xr), 0) = Vary(ReadBase(Chars(q.y), q.ints, q.xr), 0) /\ ReadMembers(Chars(q.x), q.ints) = ReadMembers(Chars(q.y), q.ints)
      empty == ReadMembers(Chars(q.x), q.ints) = {} /\ ReadMembers(Chars(q.y), q.ints) = {}
  IN IF q.obs.exc # "" THEN Holds("ranges-compare", FALSE, q.obs)
     ELSE Eq("range-equality", <<e \/ empty, ~(e \/ empty)>>, <<q.obs.eq, q.obs.ne>>) \o Holds("equal-ranges-hash-equal", (e \/ empty) => q.obs.hash, q.obs)

JudgeCase(q) == CASE q.kind = "intf" -> JudgeIntf(q) [] q.kind = "intfpair" -> JudgeIPair(q) [] q.kind = "intfsort" -> JudgeISort(q)
                  [] q.kind = "range" -> JudgeRange(q) [] q.kind = "rangeeq" -> JudgeREq(q)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
