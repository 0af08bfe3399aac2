----------------------------- MODULE CheckTree ------------------------------
(* Parsed trees recorded from the implementation against Parse. *)
EXTENDS Source, Judge
VARIABLES c, done

JudgeTree(q) ==
  LET T == TreeOf(q) o == q.obs IN
  IF "text" \notin DOMAIN o THEN Eq("parse-succeeds", "a tree", o)
  ELSE Eq("text", AllText(T), o.text) \o Eq("ioscfg", AllText(T), o.ioscfg)
       \o Eq("linenum", [i \in 1..T.n |-> i - 1], o.num)
       \o (IF q.textonly THEN <<>> ELSE
             Eq("indent", T.ind, o.ind) \o Eq("comment", T.com, o.com)
             \o Eq("parent", Nums(T.par), o.par)
             \o Eq("children", Map(T.kids, Nums), o.kids)
             \o Holds("spec-tree-well-formed", WellFormed(T), 0))

Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeTree(Cases[c]))
=============================================================================
