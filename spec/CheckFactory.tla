---------------------------- MODULE CheckFactory ----------------------------
(* Factory parses recorded from the implementation: classes, tree, and searches
   by class name and by interface name. *)
EXTENDS Factory, Judge
VARIABLES c, done
Pat(x) == [src |-> x.src, ic |-> x.ic, ng |-> x.ng,
           alts |-> [i \in 1..Len(x.alts) |-> [a \in 1..Len(x.alts[i]) |->
              IF x.alts[i][a].k = "c" THEN [k |-> "c", s |-> Chars(x.alts[i][a].s)] ELSE x.alts[i][a]]]]
Whole(p, t) == \E k \in 1..Len(p.alts) : LET r == MatchAtoms(Append(p.alts[k], [k |-> "$"]), 1, t, 1, [g \in 1..p.ng |-> <<0, 0>>]) IN r.ok
JudgeCase(q) ==
  LET T == TreeOf(q)
      cls == [i \in 1..T.n |-> ClassOf(q.opts.syn, T.txt[i])]
      o == q.obs
  IN IF "text" \notin DOMAIN o THEN Eq("factory-parse-succeeds", "a tree", o)
     ELSE Eq("text", [i \in 1..T.n |-> Str(T.txt[i])], o.text)
          \o Eq("linenum", [i \in 1..T.n |-> i - 1], o.num)
          \o Eq("indent", T.ind, o.ind) \o Eq("comment", T.com, o.com)
          \o Eq("parent", [i \in 1..T.n |-> T.par[i] - 1], o.par)
          \o Eq("children", [i \in 1..T.n |-> [k \in 1..Len(T.kids[i]) |-> T.kids[i][k] - 1]], o.kids)
          \o Eq("class", cls, o.cls)
          \o Eq("plain-parse-has-the-same-tree", TRUE, o.same)
          \o Eq("plain-parse-has-plain-lines", TRUE, \A i \in 1..Len(o.plain) : o.plain[i] = PlainClass(q.opts.syn))
          \o Eq("find_objects_dna", [k \in 1..Len(q.dna) |->
                 LET p == Pat(q.dna[k].p) IN
                 [j \in 1..Cardinality({i \in 1..T.n : IF q.dna[k].exact THEN Whole(p, Chars(cls[i])) ELSE Matches(p, Chars(cls[i]))}) |->
                    SortSet({i \in 1..T.n : IF q.dna[k].exact THEN Whole(p, Chars(cls[i])) ELSE Matches(p, Chars(cls[i]))})[j] - 1]], o.dna)
          \o Eq("find_interface_objects", [k \in 1..Len(q.intf) |-> LET f == FindIntf(T, Chars(q.intf[k])) IN [j \in 1..Len(f) |-> f[j] - 1]], o.intf)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
