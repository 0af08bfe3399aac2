----------------------------- MODULE CheckQuery -----------------------------
(* Searches recorded from the implementation.  A case is a configuration and a
   sequence of queries; each query carries its observation. *)
EXTENDS Queries, Judge
VARIABLES c, done

Opts(q) == [cd |-> Rng(q.opts.cd), ign |-> q.opts.ign, fac |-> q.opts.fac, syn |-> q.opts.syn]
Pat(x) == [src |-> x.src, ic |-> x.ic, ng |-> x.ng,
           alts |-> [i \in 1..Len(x.alts) |-> [a \in 1..Len(x.alts[i]) |->
              IF x.alts[i][a].k = "c" THEN [k |-> "c", s |-> Chars(x.alts[i][a].s)] ELSE x.alts[i][a]]]]
Pats(xs) == [i \in 1..Len(xs) |-> Pat(xs[i])]

Objs(S) == Nums(SortSet(S))
Txts(T, S) == Texts(T, SortSet(S))
DefaultOf(q) == IF q.untyped THEN q.default
                ELSE IF q.ty = "str" /\ q.defkind = "int" THEN ToString(q.default) ELSE q.default

Expect(T, q) ==
  LET m == q.m
      P1(p) == LineRx(Pat(p), q.exact, q.ws)
      E(p) == Eff(Pat(p), q.esc, q.ws)
      cps == [i \in 1..Len(q.cs) |-> E(q.cs[i])]
  IN
  CASE m = "find_objects" -> Nums(FindObjects(T, P1(q.p)))
    [] m = "find_lines" -> Texts(T, FindObjects(T, P1(q.p)))
    [] m = "has_line_with" -> LinesMatching(T, Pat(q.p)) # {}
    [] m = "cl_has_line_with" -> LinesMatching(T, Pat(q.p)) # {}
    [] m = "find_children" -> Texts(T, FindChildren(T, P1(q.p)))
    [] m = "find_all_children" -> Texts(T, FindAllChildren(T, P1(q.p)))
    [] m = "find_blocks" -> Texts(T, FindBlocks(T, P1(q.p)))
    [] m = "find_lineage" -> LET S == LinesMatching(T, LineRx(Pat(q.p), q.exact, FALSE)) IN
                             IF Cardinality(S) > 1 THEN [exc |-> "ValueError"]
                             ELSE IF S = {} THEN NONE ELSE Texts(T, Lineage(T, CHOOSE i \in S : TRUE))
    [] m = "find_parent_objects" -> Objs(ParentsW(T, E(q.p), cps[1], q.rec))
    [] m = "find_objects_w_child" -> Objs(ParentsW(T, E(q.p), cps[1], q.rec))
    [] m = "find_parents_w_child" -> Txts(T, ParentsW(T, E(q.p), cps[1], FALSE))
    [] m = "find_parent_objects_wo_child" -> Objs(ParentsWo(T, E(q.p), cps[1], q.rec))
    [] m = "find_objects_wo_child" -> Objs(ParentsWo(T, E(q.p), cps[1], q.rec))
    [] m = "find_parents_wo_child" -> Txts(T, ParentsWo(T, E(q.p), cps[1], FALSE))
    [] m = "find_child_objects" -> Objs(ChildrenOf(T, E(q.p), cps[1], q.rec))
    [] m = "find_objects_w_parents" -> Objs(ChildrenOf(T, E(q.p), cps[1], FALSE))
    [] m = "find_children_w_parents" -> Txts(T, ChildrenWParents(T, E(q.p), cps[1]))
    [] m = "find_objects_w_all_children" -> Objs(WAll(T, E(q.p), cps, q.rec))
    [] m = "find_objects_w_missing_children" -> Objs(WMissing(T, E(q.p), cps))
    [] m = "find_parent_objects_list" -> Objs(ParentsList(T, E(q.p), cps, q.rec))
    [] m = "find_child_objects_list" -> Objs(ChildrenList(T, E(q.p), cps, q.rec))
    [] m = "branches" -> LET rows == Branches(T, Pats(q.cs)) IN [r \in 1..Len(rows) |-> Nums(rows[r])]
    [] m = "branchgroups" -> BranchGroups(T, Pats(q.cs))
    [] m = "re_search_children" -> [i \in 1..T.n |-> Nums(SortSet({j \in Offspring(T, i, q.rec) : Found(T, j, Pat(q.p))}))]
    [] m = "parse_re_search_children" ->
         Nums(SortSet({i \in LinesMatching(T, Pat(q.p)) : q.rec \/ IsRoot(T, i)}))
    [] m = "re_search" -> [i \in 1..T.n |-> IF Found(T, i, Pat(q.p)) THEN Str(T.txt[i]) ELSE q.default]
    [] m = "re_match" -> [i \in 1..T.n |-> LET s == Search(Pat(q.p), T.txt[i], 1) IN
                             IF s.ok THEN Group(s, T.txt[i], q.group) ELSE q.default]
    [] m = "re_match_typed" -> [i \in 1..T.n |-> LET s == Search(Pat(q.p), T.txt[i], 1) IN
                             IF s.ok /\ Group(s, T.txt[i], q.group) # NONE THEN Typed(Group(s, T.txt[i], q.group), q.ty) ELSE DefaultOf(q)]
    [] m = "re_match_iter_typed" -> [i \in 1..T.n |->
                             LET j == FirstMatch(T, IterOrder(T, i, q.rec), Pat(q.p)) IN
                             IF j = 0 THEN DefaultOf(q) ELSE Typed(Group(Search(Pat(q.p), T.txt[j], 1), T.txt[j], q.group), q.ty)]
    [] m = "parse_re_match_iter_typed" ->
                             LET j == FirstMatch(T, Roots(T), Pat(q.p)) IN
                             IF j = 0 THEN DefaultOf(q) ELSE Typed(Group(Search(Pat(q.p), T.txt[j], 1), T.txt[j], q.group), q.ty)
    [] m = "groupdict" -> [i \in 1..T.n |->
                             LET j == FirstMatch(T, IterOrder(T, i, q.rec), Pat(q.p)) IN
                             [g \in 1..Len(q.types) |->
                                IF j = 0 THEN q.default
                                ELSE Typed(Group(Search(Pat(q.p), T.txt[j], 1), T.txt[j], g), q.types[g])]]

RECURSIVE JudgeAll(_, _, _)
JudgeAll(T, qs, k) ==
  IF k > Len(qs) THEN <<>>
  ELSE Eq(qs[k].m, Expect(T, qs[k]), qs[k].obs) \o JudgeAll(T, qs, k + 1)

JudgeCase(q) ==
  LET T == Parse(Map(q.lines, Chars), Opts(q)) IN
  IF q.n # T.n THEN Eq("number-of-lines", T.n, q.n)
  ELSE JudgeAll(T, q.queries, 1) \o Eq("searching-changes-nothing", AllText(T), q.after)

Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
