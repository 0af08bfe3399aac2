------------------------------ MODULE CheckAsa ------------------------------
(* Names, groups and port sets recorded from the implementation. *)
EXTENDS Asa, Judge
VARIABLES c, done
SetOf_(s) == {s[i] : i \in 1..Len(s)}
(* a mapping given as a list of pairs: no key twice, and the right pairs *)
MapEq(clause, want, got) == Holds(clause, Len(got) = Cardinality(want) /\ SetOf_(got) = want, got)
RECURSIVE EqAll(_, _, _)
EqAll(want, got, k) ==
  IF k > Len(want) THEN <<>>
  ELSE (IF want[k][1] \in DOMAIN got THEN Eq(want[k][1], want[k][2], got[want[k][1]]) ELSE Eq(want[k][1], want[k][2], "not observed"))
       \o EqAll(want, got, k + 1)
WantAsa(W, K, i) == CASE W[i][1] = "name" -> NameAttrs(W, i)
                      [] W[i][1] = "object-group" /\ W[i][2] = "network" -> NetAttrs(W, K, i)
                      [] W[i][1] = "object-group" /\ W[i][2] = "service" -> SvcAttrs(W, K, i)
RECURSIVE JudgeDefs(_, _, _, _)
JudgeDefs(q, W, K, k) == IF k > Len(q.obs.objs) THEN <<>>
                         ELSE EqAll(WantAsa(W, K, q.obs.objs[k].line + 1), q.obs.objs[k].attrs, 1) \o JudgeDefs(q, W, K, k + 1)
JudgeConf(q) ==
  LET T == TreeOf(q) IN
  IF T.n # q.obs.n THEN Eq("number-of-lines", T.n, q.obs.n)
  ELSE LET W == TLCEval([i \in 1..T.n |-> LineOf(T.txt[i]).w]) IN
       MapEq("names", NamesMap(W), q.obs.names) \o MapEq("object_group_network", GroupMap(W, "network"), q.obs.ogn)
       \o MapEq("object_group_service", GroupMap(W, "service"), q.obs.ogs)
       \o MapEq("access_list", {<<x[1], [k \in 1..Len(x[2]) |-> x[2][k] - 1]>> : x \in AclMap(W)}, q.obs.acl)
       \o Eq("groups", Cardinality(GroupLines(W, "network")) + Cardinality(GroupLines(W, "service")) + Cardinality(NameLines(W)), Len(q.obs.objs))
       \o JudgeDefs(q, W, T.kids, 1)
RECURSIVE JudgePorts(_, _)
JudgePorts(q, k) == IF k > Len(q.specs) THEN <<>>
                    ELSE Eq("port-set", PortObs(q.specs[k][1], LineOf(Chars(q.specs[k][2])).w), q.obs[k]) \o JudgePorts(q, k + 1)
JudgeCase(q) == IF q.kind = "ports" THEN JudgePorts(q, 1)
                ELSE IF "objs" \notin DOMAIN q.obs THEN Eq("the-configuration-is-parsed", "objects", q.obs) ELSE JudgeConf(q)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
