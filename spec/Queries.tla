------------------------------ MODULE Queries -------------------------------
(* The searches of a configuration, as functions of its tree.  A search
   expression is an Rx pattern; results are sequences of line indices. *)
EXTENDS ConfTree

SPECIALS == {"(", ")", "[", "]", "{", "}", "?", "*", "+", "-", "|", "^", "$", "\\", ".", "&", "~", "#", " ", "\t"}
EscapeSrc(t) == Concat([i \in 1..Len(t) |-> IF t[i] \in SPECIALS THEN <<"\\", t[i]>> ELSE <<t[i]>>])
(* the expression's own text once its blanks are made tolerant *)
TolerantSrc(t) ==
  LET RECURSIVE go(_)
      go(j) == IF j > Len(t) THEN <<>>
               ELSE IF t[j] = "\\" /\ j < Len(t) /\ t[j + 1] \notin WS THEN <<t[j], t[j + 1]>> \o go(j + 2)
               ELSE IF t[j] \in WS \/ (t[j] = "\\" /\ j < Len(t)) THEN
                 LET RECURSIVE skip(_)
                     skip(k) == IF k > Len(t) THEN k
                                ELSE IF t[k] \in WS THEN skip(k + 1)
                                ELSE IF t[k] = "\\" /\ k < Len(t) /\ t[k + 1] \in WS THEN skip(k + 2) ELSE k
                 IN <<"\\", "s", "+">> \o go(skip(j))
               ELSE <<t[j]>> \o go(j + 1)
  IN go(1)

(* the expression in effect *)
Eff(p, esc, ws) ==
  LET p1 == IF esc THEN [Escaped(p) EXCEPT !.src = Str(EscapeSrc(Chars(p.src)))] ELSE p
  IN IF ws THEN [SpaceTolerant(p1) EXCEPT !.src = Str(TolerantSrc(Chars(p1.src)))] ELSE p1

(* the whole line must match *)
Whole(p) == [p EXCEPT !.alts = [i \in 1..Len(p.alts) |-> <<[k |-> "^"]>> \o p.alts[i] \o <<[k |-> "$"]>>]]
LineRx(p, exact, ws) == LET e == Eff(p, FALSE, ws) IN IF exact THEN Whole(e) ELSE e

Filter(T, P(_)) == SortSet({i \in 1..T.n : P(i)})
LinesMatching(T, p) == {i \in 1..T.n : Matches(p, T.txt[i])}

(* a line is "found" by an expression if it matches it or contains its text *)
Found(T, i, p) == T.txt[i] # <<>> /\ (Contains(T.txt[i], Chars(p.src)) \/ Matches(p, T.txt[i]))
Offspring(T, i, recurse) == IF recurse THEN Desc(T, i) ELSE Rng(T.kids[i])

FindObjects(T, p) == SortSet(LinesMatching(T, p))
FindChildren(T, p) == SortSet(UNION {{i} \cup Rng(T.kids[i]) : i \in LinesMatching(T, p)})
FindAllChildren(T, p) == SortSet(UNION {{i} \cup Desc(T, i) : i \in LinesMatching(T, p)})
FindBlocks(T, p) ==
  LET S == UNION {{i} \cup Rng(T.kids[T.par[i]]) : i \in LinesMatching(T, p)}
  IN SortSet(S \cup UNION {Anc(T, i) : i \in S})

ParentsW(T, pp, cp, rec) == {i \in LinesMatching(T, pp) : \E j \in Offspring(T, i, rec) : Found(T, j, cp)}
ParentsWo(T, pp, cp, rec) == {i \in LinesMatching(T, pp) : \A j \in Offspring(T, i, rec) : ~Found(T, j, cp)}
ChildrenOf(T, pp, cp, rec) == UNION {{j \in Offspring(T, i, rec) : Matches(cp, T.txt[j])} : i \in LinesMatching(T, pp)}
ChildrenWParents(T, pp, cp) == {j \in LinesMatching(T, cp) : \E i \in Anc(T, j) : Matches(pp, T.txt[i])}
WAll(T, pp, cps, rec) == {i \in LinesMatching(T, pp) : \A k \in 1..Len(cps) : \E j \in Offspring(T, i, rec) : Found(T, j, cps[k])}
WMissing(T, pp, cps) == {i \in LinesMatching(T, pp) : \E k \in 1..Len(cps) : \A j \in Rng(T.kids[i]) : ~Found(T, j, cps[k])}
ParentsList(T, pp, cps, rec) ==
  IF \E k \in 1..Len(cps) : ParentsW(T, pp, cps[k], rec) = {} THEN {}
  ELSE UNION {ParentsW(T, pp, cps[k], rec) : k \in 1..Len(cps)}
ChildrenList(T, pp, cps, rec) ==
  IF \E k \in 1..Len(cps) : ChildrenOf(T, pp, cps[k], rec) = {} THEN {}
  ELSE ChildrenOf(T, pp, cps[Len(cps)], rec)

(* branches: rows of line indices, 0 where the chain ends early *)
KidsMatching(T, i, p) == SelectSeq(T.kids[i], LAMBDA j : Matches(p, T.txt[j]))
Branches(T, ps) ==
  LET first == FindObjects(T, ps[1])
      RECURSIVE grow(_, _)
      grow(rows, l) ==
        IF l > Len(ps) THEN rows
        ELSE grow(Concat([r \in 1..Len(rows) |->
               LET last == rows[r][l - 1]
                   ks == IF last = 0 THEN <<>> ELSE KidsMatching(T, last, ps[l])
               IN IF ks = <<>> THEN << Append(rows[r], 0) >>
                  ELSE [k \in 1..Len(ks) |-> Append(rows[r], ks[k])]]), l + 1)
  IN grow(IF first = <<>> THEN << <<0>> >> ELSE [k \in 1..Len(first) |-> <<first[k]>>], 2)
BranchGroups(T, ps) ==
  LET rows == Branches(T, ps) IN
  [r \in 1..Len(rows) |-> [l \in 1..Len(ps) |->
     IF rows[r][l] = 0 THEN <<NONE>>
     ELSE LET t == T.txt[rows[r][l]]  m == Search(ps[l], t, 1) IN
          IF ps[l].ng = 0 THEN <<Str(t)>> ELSE [g \in 1..ps[l].ng |-> Group(m, t, g)]]]

(* extraction: the first line, in the given order, on which the expression matches *)
FirstMatch(T, order, p) ==
  LET K == {k \in 1..Len(order) : Matches(p, T.txt[order[k]])} IN IF K = {} THEN 0 ELSE order[MinOf(K)]
IterOrder(T, i, recurse) == <<i>> \o (IF recurse THEN AllKids(T, i) ELSE T.kids[i])
Roots(T) == SortSet({i \in 1..T.n : IsRoot(T, i)})

(* converting a captured group: "str" or "int" *)
Typed(v, ty) == IF ty = "int" THEN NatOf(Chars(v)) ELSE v
TypedDefault(d, ty) == IF ty = "str" THEN ToString(d) ELSE d      \* d: a number, or a string for "str"
=============================================================================
