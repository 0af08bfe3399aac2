------------------------------ MODULE CheckRel ------------------------------
(* Derived family relations recorded from the implementation. *)
EXTENDS ConfTree, Judge
VARIABLES c, done

Opts(q) == [cd |-> Rng(q.opts.cd), ign |-> q.opts.ign, fac |-> q.opts.fac, syn |-> q.opts.syn]

(* the relations of every line; numbers as the implementation counts *)
Bool(b) == b
ExpRel(T) ==
  [allchildren |-> [i \in 1..T.n |-> Nums(AllKids(T, i))],
   allparents |-> [i \in 1..T.n |-> Nums(AllPars(T, i))],
   lineage |-> [i \in 1..T.n |-> Nums(Lineage(T, i))],
   geneology |-> [i \in 1..T.n |-> Nums(Geneology(T, i))],
   geneologytext |-> [i \in 1..T.n |-> Texts(T, Geneology(T, i))],
   siblings |-> [i \in 1..T.n |-> Nums(Siblings(T, i))],
   endpoint |-> [i \in 1..T.n |-> Endpoint(T, i) - 1],
   isparent |-> [i \in 1..T.n |-> T.kids[i] # <<>>],
   haschildren |-> [i \in 1..T.n |-> T.kids[i] # <<>>],
   ischild |-> [i \in 1..T.n |-> ~IsRoot(T, i)],
   ioscfg |-> [i \in 1..T.n |-> Texts(T, <<i>> \o AllKids(T, i))],
   isconfig |-> [i \in 1..T.n |-> ~IsBlank(T.txt[i]) /\ ~T.com[i]]]

(* has_child_with(literal): a word that is no regular expression operator *)
ChildWith(T, i, w, deep) ==
  \E j \in (IF deep THEN Desc(T, i) ELSE Rng(T.kids[i])) : Contains(T.txt[j], w)

JudgeRel(q) ==
  LET T == Parse(Map(q.lines, Chars), Opts(q)) o == q.obs IN
  IF "n" \notin DOMAIN o THEN Eq("parse-succeeds", "relations", o)
  ELSE IF o.n # T.n THEN Eq("number-of-lines", T.n, o.n)
  ELSE LET e == ExpRel(T)  names == {"allchildren", "allparents", "lineage", "geneology", "geneologytext", "siblings",
                                     "endpoint", "isparent", "haschildren", "ischild", "ioscfg", "isconfig"}
           RECURSIVE all(_)
           all(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Eq(x, e[x], o[x]) \o all(S \ {x})
       IN all(names)
          \o Eq("has_child_with", [i \in 1..T.n |-> ChildWith(T, i, Chars(q.word), FALSE)], o.childwith)
          \o Eq("has_child_with-all", [i \in 1..T.n |-> ChildWith(T, i, Chars(q.word), TRUE)], o.descwith)
          (* distinct lines are unequal, ordered by line number; equal lines hash equal *)
          \o Eq("equal-pairs", <<>>, o.eqpairs)
          \o Eq("order-disagrees", <<>>, o.badorder)
          \o Eq("set-size", T.n, o.setsize)
          \o Eq("again-equal-and-same-hash", [i \in 1..T.n |-> TRUE], o.again)
          \o Eq("sorted-shuffle", [i \in 1..T.n |-> i - 1], o.sorted)

Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeRel(Cases[c]))
=============================================================================
