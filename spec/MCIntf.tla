------------------------------- MODULE MCIntf -------------------------------
(* Every interface over small component domains: reading what is rendered gives
   the same components, and the order is total among interfaces of one type. *)
EXTENDS Intf
CONSTANTS NUMS, XR
VARIABLES x, y
PartSeqs == IF XR THEN [1..1 -> NUMS] \cup [1..4 -> NUMS] ELSE [1..1 -> NUMS] \cup [1..2 -> NUMS] \cup [1..3 -> NUMS]
All == {[ok |-> TRUE, prefix |-> Chars(p), parts |-> [i \in DOMAIN s |-> NatChars(s[i])], sub |-> u, chan |-> h, cls |-> Chars(k)] :
          p \in {"Eth"}, s \in PartSeqs, u \in {-1} \cup NUMS, h \in {-1} \cup NUMS, k \in {"", "multipoint"}}
Init == x \in All /\ y = x
Next == y = x /\ y' \in All /\ x' = x
RoundTrip == ReadIntf(ShowIntf(x), XR) = x
Total == Key(x) # Key(y) <=> (IntfLess(x, y) \/ IntfLess(y, x))
Asym == ~(IntfLess(x, y) /\ IntfLess(y, x))
Numeric == (Len(x.parts) = Len(y.parts) /\ x.sub = y.sub /\ x.chan = y.chan /\ SubSeq(x.parts, 1, Len(x.parts) - 1) = SubSeq(y.parts, 1, Len(y.parts) - 1))
           => (IntfLess(x, y) <=> NatOf(Port(x)) < NatOf(Port(y)))
=============================================================================
