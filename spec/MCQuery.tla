------------------------------ MODULE MCQuery -------------------------------
(* Laws of the searches over every small tree. *)
EXTENDS Queries
CONSTANTS MaxLines, MaxIndent, Bodies
VARIABLES raw
Opt == [cd |-> {"!"}, ign |-> FALSE, fac |-> FALSE, syn |-> "ios"]
Init == raw = <<>>
Next == Len(raw) < MaxLines /\ \E k \in 0..MaxIndent, b \in Bodies : raw' = Append(raw, Spaces(k) \o Chars(b))
T == Parse(raw, Opt)
A == LitPat("a")
B == LitPat("b")
AB == [src |-> "^\\s*a|b$", ic |-> FALSE, ng |-> 0, alts |-> <<
        <<[k |-> "^"], [k |-> "r", cls |-> "s", lo |-> 0, hi |-> -1], [k |-> "c", s |-> <<"a">>]>>, <<[k |-> "c", s |-> <<"b">>], [k |-> "$"]>> >>]
Ps == {A, B, AB}
SearchLaws ==
  LET t == T IN \A p \in Ps : \A q \in Ps : \A rec \in BOOLEAN :
    (* with and without partition the matching lines *)
    /\ ParentsW(t, p, q, rec) \cap ParentsWo(t, p, q, rec) = {}
    /\ ParentsW(t, p, q, rec) \cup ParentsWo(t, p, q, rec) = LinesMatching(t, p)
    (* recursion only adds; children searches and parent searches are the two ends of the same relation *)
    /\ ParentsW(t, p, q, FALSE) \subseteq ParentsW(t, p, q, TRUE)
    /\ ChildrenOf(t, p, q, TRUE) = ChildrenWParents(t, p, q)
    /\ (ChildrenOf(t, p, q, rec) = {}) = (ParentsW(t, p, q, rec) = {})
    /\ \A j \in ChildrenOf(t, p, q, FALSE) : t.par[j] \in ParentsW(t, p, q, FALSE)
    (* nesting of the line searches *)
    /\ Rng(FindObjects(t, p)) \subseteq Rng(FindChildren(t, p))
    /\ Rng(FindChildren(t, p)) \subseteq Rng(FindAllChildren(t, p))
    /\ LinesMatching(t, Whole(p)) \subseteq LinesMatching(t, p)
    (* all / missing partition *)
    /\ WAll(t, p, <<q, A>>, FALSE) \cup WMissing(t, p, <<q, A>>) = LinesMatching(t, p)
    /\ WAll(t, p, <<q, A>>, FALSE) \cap WMissing(t, p, <<q, A>>) = {}
    /\ WAll(t, p, <<q>>, rec) = ParentsW(t, p, q, rec)
BranchLaws ==
  LET t == T IN \A p \in Ps : \A q \in Ps :
    LET rows == Branches(t, <<p, q, A>>) IN
    (* one row per maximal chain, each as long as the specification *)
    /\ \A r \in 1..Len(rows) : Len(rows[r]) = 3
    /\ \A r \in 1..Len(rows) : \A l \in 1..2 : rows[r][l] = 0 => rows[r][l + 1] = 0
    /\ \A r \in 1..Len(rows) : \A l \in 2..3 : rows[r][l] # 0 => t.par[rows[r][l]] = rows[r][l - 1]
    /\ {rows[r][1] : r \in 1..Len(rows)} = (IF LinesMatching(t, p) = {} THEN {0} ELSE LinesMatching(t, p))
    /\ {rows[r][2] : r \in 1..Len(rows)} \ {0} = {j \in ChildrenOf(t, p, q, FALSE) : TRUE}
    /\ \A a, b \in 1..Len(rows) : a # b => rows[a] # rows[b]
=============================================================================
