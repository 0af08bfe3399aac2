------------------------------ MODULE MCGroups ------------------------------
(* Configurations of names and network groups, built line by line: a group always
   stands for the concatenation of its members, a new member lengthens exactly the
   groups that reach it, and redefining a name changes what it stands for everywhere. *)
EXTENDS Asa, Json
CONSTANTS MaxLines, GNAMES
VARIABLES W, par    \* words of each line, the line it is indented under (0: none)
vars == <<W, par>>
Open == IF W = <<>> THEN 0 ELSE IF par[Len(W)] # 0 THEN par[Len(W)] ELSE IF W[Len(W)][1] = "object-group" THEN Len(W) ELSE 0
Kids_(w, p) == [i \in 1..Len(w) |-> LET ks == {j \in 1..Len(w) : p[j] = i} IN
                 [k \in 1..Cardinality(ks) |-> CHOOSE j \in ks : Cardinality({x \in ks : x < j}) = k - 1]]
Top_(ws) == Len(W) < MaxLines /\ W' = Append(W, ws) /\ par' = Append(par, 0)
Member(ws) == Len(W) < MaxLines /\ Open # 0 /\ W' = Append(W, ws) /\ par' = Append(par, Open)
Exp(w, p, g) == IF GroupNamed(w, "network", g) = 0 THEN BadList ELSE Nets(w, Kids_(w, p), GroupNamed(w, "network", g), FUEL)
(* groups are not allowed to reach themselves through other groups *)
RECURSIVE Reaches(_, _, _, _, _)
Reaches(w, p, a, b, n) == a = b \/ (n > 0 /\ GroupNamed(w, "network", a) # 0
                                   /\ \E j \in 1..Len(w) : p[j] = GroupNamed(w, "network", a) /\ w[j][1] = "group-object" /\ Reaches(w, p, w[j][2], b, n - 1))
Acyclic == \A a \in GNAMES : ~\E j \in 1..Len(W) : par[j] # 0 /\ W[par[j]][3] = a /\ W[j][1] = "group-object" /\ W[j][2] # a /\ Reaches(W, par, W[j][2], a, 4)
Init == W = <<>> /\ par = <<>>
Next == \/ \E a \in {"1.1.1.1", "10.0.0.5"} : Top_(<<"name", a, "srv">>)
        \/ \E g \in GNAMES : GroupNamed(W, "network", g) = 0 /\ Top_(<<"object-group", "network", g>>)
        \/ \E m \in {<<"network-object", "host", "srv">>, <<"network-object", "10.1.0.0", "255.255.0.0">>, <<"network-object", "srv", "255.255.255.255">>} : Member(m)
        \/ \E g \in GNAMES : Member(<<"group-object", g>>) /\ Acyclic'
Spec == Init /\ [][Next]_vars
Grow == [][\A g \in GNAMES :
            LET old == Exp(W, par, g) new == Exp(W', par', g) line == W'[Len(W')] n == par'[Len(W')] IN
            /\ line[1] = "network-object" /\ old.ok /\ new.ok =>
                 /\ Len(new.l) >= Len(old.l)
                 /\ (Len(new.l) > Len(old.l)) = Reaches(W', par', g, W[n][3], 4)
            /\ line[1] = "network-object" => old.ok = new.ok
            /\ line[1] = "name" /\ old.ok => new.ok /\ Len(new.l) = Len(old.l)
            /\ old.ok /\ line[1] = "group-object" /\ W[n][3] = g /\ new.ok => new.l = old.l \o Exp(W, par, line[2]).l]_vars
Text_(i) == (IF par[i] = 0 THEN "" ELSE " ") \o SpaceJoin(W[i])
NextKind == W # <<>> /\ \E g \in GNAMES : GroupNamed(W, "network", g) # 0
Emitted == NextKind => PrintT("GEN " \o ToJson(<<[i \in 1..Len(W) |-> Text_(i)],
             LET K == Kids_(W, par) S == SortedLines(GroupLines(W, "network")) IN [k \in 1..Len(S) |-> NetAttrs(W, K, S[k])]>>))
=============================================================================
