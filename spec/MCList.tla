------------------------------- MODULE MCList -------------------------------
(* Every small configuration under every short sequence of list operations (from
   ops.json): laws of the list, and the histories for replay. *)
EXTENDS ListOps, Json
CONSTANTS MaxLines, Bodies, MaxOps, Emit
VARIABLES raw, st, prev, got, hist
Ops == JsonDeserialize("ops.json")
Opt == [cd |-> {"!"}, ign |-> TRUE, fac |-> FALSE, syn |-> "ios"]
Lines == {Chars(b) : b \in Bodies}
Init == \E n \in 0..MaxLines : \E f \in [1..n -> Lines] :
          raw = f /\ st = Open(Parse(raw, Opt)) /\ prev = st /\ got = Gives(st, ANY) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E k \in 1..Len(Ops) : /\ hist' = Append(hist, k) /\ got' = ListApply(st, Ops[k], Opt)
                                  /\ st' = got'.st /\ prev' = st /\ raw' = raw
Op == Ops[hist[Len(hist)]]
Cut(a, b) == Pick(st.seq, Picked([a |-> [h |-> TRUE, v |-> a], b |-> [h |-> TRUE, v |-> b], s |-> 1], Len(st.seq)))
Open1(v) == [h |-> TRUE, v |-> v]
None1 == [h |-> FALSE, v |-> 0]
(* reading leaves the lines alone *)
ReadsLeave == (hist # <<>> /\ Op.m \in ListReads) => st.seq = prev.seq /\ TextOf(st) = TextOf(prev)
RefusalLeaves == got.exc # NONE => st.seq = prev.seq
(* slicing at any place cuts the list in two; the full slice is the list, backwards its reverse *)
CutLaw == \A i \in (-4)..4 :
  LET n == Len(st.seq)
      A == Pick(st.seq, Picked([a |-> None1, b |-> Open1(i), s |-> 1], n))
      B == Pick(st.seq, Picked([a |-> Open1(i), b |-> None1, s |-> 1], n))
  IN A \o B = st.seq
BackLaw == Pick(st.seq, Picked([a |-> None1, b |-> None1, s |-> -1], Len(st.seq))) = Rev(st.seq)
PartLaw == \A a \in 0..3, b \in 0..4 : Cut(a, b) = SubSeq(st.seq, a + 1, IF b > Len(st.seq) THEN Len(st.seq) ELSE b)
(* every position is picked by exactly one of the steps 2 from 0 and 2 from 1 *)
StepLaw == LET P(i) == Rng(Picked([a |-> Open1(i), b |-> None1, s |-> 2], Len(st.seq))) IN
           P(0) \cap P(1) = {} /\ P(0) \cup P(1) = 1..Len(st.seq)
SortLaw == (hist # <<>> /\ Op.m = "sort") =>
  /\ Len(st.seq) = Len(prev.seq) /\ \A x \in Rng(prev.seq) : Cardinality({k \in 1..Len(st.seq) : st.seq[k] = x}) = Cardinality({k \in 1..Len(prev.seq) : prev.seq[k] = x})
  /\ ListApply(st, Op, Opt).st = st
GoneLaw == (hist # <<>> /\ Op.m \in {"pop", "remove"} /\ Len(prev.seq) > 0 /\ got.exc = NONE /\ ToJson(got.ret) # ToJson(ANY)) => Len(st.seq) = Len(prev.seq) - 1
ParseLaw == LET q == Reparse(st, Opt) IN Reparse(q, Opt) = q
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("GEN " \o ToJson([lines |-> [i \in 1..Len(raw) |-> Str(raw[i])], hist |-> hist]))
=============================================================================
