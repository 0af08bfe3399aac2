------------------------------- MODULE MCTree -------------------------------
(* Every small configuration text, with its laws: the derived relations are
   mutually inverse, families nest, and (without comments and braces) a family
   is a contiguous block of lines ending at its endpoint. *)
EXTENDS ConfTree, Json
CONSTANTS MaxLines, MaxIndent, Bodies, Ign, Emit
VARIABLES raw
Opt == [cd |-> {"!"}, ign |-> Ign, fac |-> FALSE, syn |-> "ios"]
Line(k, b) == Spaces(k) \o Chars(b)
Init == raw = <<>>
Next == Len(raw) < MaxLines /\ \E k \in 0..MaxIndent, b \in Bodies : raw' = Append(raw, Line(k, b))

T == Parse(raw, Opt)
Plain == \A i \in 1..T.n : ~T.com[i] /\ ~\E k \in 1..Len(T.txt[i]) : T.txt[i][k] \in {"{", "}"}
Laws ==
  LET t == T IN
  /\ WellFormed(t)
  /\ \A i, j \in 1..t.n : (i \in Anc(t, j)) <=> (j \in Desc(t, i))
  /\ \A i \in 1..t.n : i \notin Anc(t, i) /\ i \notin Desc(t, i)
  /\ \A i, j \in 1..t.n : Desc(t, i) \cap Desc(t, j) = {} \/ Desc(t, i) \subseteq Desc(t, j) \/ Desc(t, j) \subseteq Desc(t, i)
  /\ \A i \in 1..t.n : Rng(Lineage(t, i)) = Anc(t, i) \cup {i} \cup Desc(t, i)
  /\ \A i \in 1..t.n : IsRoot(t, i) <=> Anc(t, i) = {}
  /\ \A i \in 1..t.n : Anc(t, i) # {} => (MaxOf(Anc(t, i)) = t.par[i] /\ \A a \in Anc(t, i) : a < i)
  /\ \A i \in 1..t.n : ~IsRoot(t, i) => i \in Rng(Siblings(t, i)) 
Contiguous == Plain => LET t == T IN
  \A i \in 1..t.n : Desc(t, i) = (i + 1)..Endpoint(t, i)
(* re-parsing the text of a tree is the identity, blank lines dropped or not *)
Idempotent == LET t == T IN Parse(t.txt, Opt) = t
Emitted == (Emit /\ Len(raw) = MaxLines) => PrintT("GEN " \o ToJson([i \in 1..Len(raw) |-> Str(raw[i])]))
=============================================================================
