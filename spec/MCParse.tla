------------------------------ MODULE MCParse -------------------------------
(* The incremental parser as a state machine, one action per line read, checked
   against the declarative tree.  parents (indent -> line) and maxind are the
   parser's cache; par is the hierarchy built so far. *)
EXTENDS ConfTree, Json
CONSTANTS MaxLines, Indents, Kinds, Ign, Emit
VARIABLES ind, com, cfgl, par, cache, maxind
vars == <<ind, com, cfgl, par, cache, maxind>>

Init == ind = <<>> /\ com = <<>> /\ cfgl = <<>> /\ par = <<>> /\ cache = [x \in {} |-> 0] /\ maxind = 0

(* the parser's walk backwards to a less indented configuration line *)
RECURSIVE WalkBack(_, _)
WalkBack(j, k) == IF j = 0 THEN 0 ELSE IF ind[j] < k /\ cfgl[j] THEN j ELSE WalkBack(j - 1, k)

(* the line above, over blank lines that will be dropped *)
RECURSIVE Above(_)
Above(j) == IF j = 0 THEN 0 ELSE IF Ign /\ ~com[j] /\ ~cfgl[j] THEN Above(j - 1) ELSE j

ReadLine(k, isCom, isBlank) ==
  LET i == Len(ind) + 1
      isCfg == ~isCom /\ ~isBlank
      prune == k < maxind /\ isCfg
      cache1 == IF prune THEN [x \in {y \in DOMAIN cache : y < k} |-> cache[x]] ELSE cache
      hit == IF ~prune /\ k \in DOMAIN cache THEN cache[k] ELSE 0
      cand == IF k = 0 THEN 0 ELSE IF hit # 0 THEN hit ELSE WalkBack(i - 1, k)
      above == Above(i - 1)
      orphan == isCom /\ above > 0 /\ ind[above] > k
  IN /\ ind' = Append(ind, k) /\ com' = Append(com, isCom) /\ cfgl' = Append(cfgl, isCfg)
     /\ par' = Append(par, IF k = 0 \/ cand = 0 \/ orphan THEN i ELSE cand)
     /\ cache' = IF k > 0 /\ hit = 0 /\ cand # 0
                 THEN [x \in DOMAIN cache1 \cup {k} |-> IF x = k THEN cand ELSE cache1[x]] ELSE cache1
     /\ maxind' = IF k = 0 /\ isCfg THEN 0 ELSE IF k > maxind THEN k ELSE maxind

Next == /\ Len(ind) < MaxLines
        /\ \E k \in Indents, x \in Kinds :
             \/ x = "cfg" /\ ReadLine(k, FALSE, FALSE)
             \/ x = "com" /\ ReadLine(k, TRUE, FALSE)
             \/ x = "blank" /\ k = 0 /\ ReadLine(0, FALSE, TRUE)

Kind(i) == IF com[i] THEN "com" ELSE IF cfgl[i] THEN "cfg" ELSE "blank"

(* the incremental algorithm computes the declarative parent *)
Gone == IF Ign THEN {i \in 1..Len(ind) : ~com[i] /\ ~cfgl[i]} ELSE {}
Agrees == \A i \in 1..Len(ind) : par[i] = IndentParent(i, ind, com, cfgl, Gone)
(* consequences *)
CacheSound == \A k \in DOMAIN cache : k > 0 /\ ind[cache[k]] < k /\ cfgl[cache[k]] /\ k <= maxind
ParentsSane == \A i \in 1..Len(ind) : par[i] <= i /\ (par[i] # i => ind[par[i]] < ind[i] /\ cfgl[par[i]])
(* indentation strictly decreases towards the root: families nest *)
Emitted == (Emit /\ Len(ind) = MaxLines) =>
  PrintT("GEN " \o ToJson(<<ind, [i \in 1..Len(ind) |-> Kind(i)], [i \in 1..Len(par) |-> par[i] - 1]>>))
=============================================================================
