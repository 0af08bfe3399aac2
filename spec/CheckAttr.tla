------------------------------ MODULE CheckAttr -----------------------------
(* Attributes recorded from the implementation for the objects of a configuration. *)
EXTENDS Route, AsaLines, NxLines, Lines, Junos, Judge
VARIABLES c, done
Kids(T, i) == [k \in 1..Len(T.kids[i]) |-> LineOf(T.txt[T.kids[i][k]])]
Blocks(T, i) == [k \in 1..Len(T.kids[i]) |-> [l |-> LineOf(T.txt[T.kids[i][k]]), sub |-> Kids(T, T.kids[i][k])]]
Range_(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE EqAll(_, _, _)
EqAll(want, got, k) ==
  IF k > Len(want) THEN <<>>
  ELSE (IF want[k][1] \in DOMAIN got THEN IF want[k][1] = "server_private" THEN Eq("server_private", want[k][2], Range_(got["server_private"])) ELSE Eq(want[k][1], want[k][2], got[want[k][1]]) ELSE Eq(want[k][1], want[k][2], "not observed"))
       \o EqAll(want, got, k + 1)
Want(q, T, i) == CASE q.what = "ios-intf" -> IosIntf(T.txt[i], Kids(T, i), q.nets)
                   [] q.what = "ios-route" -> RouteAttrs(LineOf(T.txt[i]).w)
                   [] q.what = "asa-intf" -> AsaIntf(T.txt[i], Kids(T, i), q.nets)
                   [] q.what = "asa-acl" -> AclAttrs(ReadAcl(T.txt[i], LineOf(T.txt[i]).w))
                   [] q.what = "asa-host" -> HostName(LineOf(T.txt[i]).w)
                   [] q.what = "nxos-intf" -> NxIntf(T.txt[i], Blocks(T, i), q.nets)
                   [] q.what = "nxos-vpc" -> VpcAttrs(LineOf(T.txt[i]).w, Kids(T, i))
                   [] q.what = "nxos-route" -> NxRouteAttrs(LineOf(T.txt[i]).w)
                   [] q.what = "xr-intf" -> XrIntf(T.txt[i], Blocks(T, i), q.nets)
                   [] q.what = "ios-lines" -> LineAttrs(LineOf(T.txt[i]).w, Kids(T, i), FALSE)
                   [] q.what = "nxos-lines" -> LineAttrs(LineOf(T.txt[i]).w, Kids(T, i), TRUE)
                   [] q.what = "junos" -> JunosAttrs(T, i)
                   [] q.what = "ios-switch" -> SwitchAttrs(Kids(T, i))
Abbr(q, t) == IF "abbr" \notin DOMAIN q THEN <<>> ELSE << <<"is_abbreviated_as", [k \in 1..Len(q.abbr) |-> Abbreviates(t, q.abbr[k])]>> >>
(* the lines that are observed are those of a known kind *)
KnownLines(T) == {i \in 1..T.n : T.txt[i] # <<>> /\ T.txt[i][1] \notin WS /\ KindOf(LineOf(T.txt[i]).w) # ""}
EqLines(q, T) == IF q.what \in {"ios-lines", "nxos-lines", "junos"}
                 THEN Eq("recognised-lines", IF q.what = "junos" THEN JunosLines(T) ELSE KnownLines(T), {q.obs.objs[k].line + 1 : k \in 1..Len(q.obs.objs)}) ELSE <<>>
RECURSIVE JudgeObjs(_, _, _)
JudgeObjs(q, T, k) == IF k > Len(q.obs.objs) THEN <<>>
                      ELSE EqAll(Want(q, T, q.obs.objs[k].line + 1) \o Abbr(q, T.txt[q.obs.objs[k].line + 1]), q.obs.objs[k].attrs, 1) \o JudgeObjs(q, T, k + 1)
JudgeCase(q) == IF "objs" \notin DOMAIN q.obs THEN Eq("the-configuration-is-parsed", "objects", q.obs)
                ELSE LET T == TreeOf(q) IN
                     IF T.n # q.obs.n THEN Eq("number-of-lines", T.n, q.obs.n) ELSE EqLines(q, T) \o JudgeObjs(q, T, 1)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
