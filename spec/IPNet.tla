------------------------------- MODULE IPNet --------------------------------
(* IP addresses as big-endian sequences of limbs of BITS bits each (8 for the
   real protocols; smaller in the exhaustive models), prefixes, containment,
   order, arithmetic and summarisation.  An interface address is a record
   [a |-> limbs, p |-> prefix length]. *)
EXTENDS Text
CONSTANT BITS
BASE == 2 ^ BITS
Pow2 == [k \in 0..8 |-> 2 ^ k]

Width(a) == BITS * Len(a)
Lesser(x, y) == IF x < y THEN x ELSE y
(* number of prefix bits falling into limb i *)
In(p, i) == IF p <= BITS * (i - 1) THEN 0 ELSE IF p >= BITS * i THEN BITS ELSE p - BITS * (i - 1)
LimbMask(k) == BASE - Pow2[BITS - k]
Netmask(n, p) == [i \in 1..n |-> LimbMask(In(p, i))]
Hostmask(n, p) == [i \in 1..n |-> BASE - 1 - LimbMask(In(p, i))]
Network(a, p) == [i \in 1..Len(a) |-> a[i] - (a[i] % Pow2[BITS - In(p, i)])]
Last(a, p) == LET h == Hostmask(Len(a), p)  n == Network(a, p) IN [i \in 1..Len(a) |-> n[i] + h[i]]
HostBits(a, p) == [i \in 1..Len(a) |-> a[i] % Pow2[BITS - In(p, i)]]
Zero(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> BASE - 1]

(* ---- order on limb sequences of one length ---- *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(a) THEN FALSE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)
Leq(a, b) == a = b \/ Less(a, b)

(* ---- arithmetic ---- *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) == \* limbs 1..i, most significant limb first
  IF i = 0 THEN [over |-> carry # 0, v |-> <<>>]
  ELSE LET s == a[i] + b[i] + carry
           r == AddFrom(a, b, i - 1, s \div BASE)
       IN [over |-> r.over, v |-> Append(r.v, s % BASE)]
Add(a, b) == AddFrom(a, b, Len(a), 0)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i = 0 THEN [over |-> borrow # 0, v |-> <<>>]
  ELSE LET d == a[i] - b[i] - borrow
           r == SubFrom(a, b, i - 1, IF d < 0 THEN 1 ELSE 0)
       IN [over |-> r.over, v |-> Append(r.v, IF d < 0 THEN d + BASE ELSE d)]
Sub(a, b) == SubFrom(a, b, Len(a), 0)
Plus(a, b) == Add(a, b).v
Minus(a, b) == Sub(a, b).v
One(n) == [i \in 1..n |-> IF i = n THEN 1 ELSE 0]

(* ---- objects ---- *)
Net(x) == Network(x.a, x.p)
Contains_(x, y) == x.p <= y.p /\ Network(y.a, x.p) = Net(x)
Before(x, y) == IF Net(x) # Net(y) THEN Less(Net(x), Net(y))
                ELSE IF x.p # y.p THEN x.p < y.p ELSE Less(x.a, y.a)
Shift(x, neg, d) == LET r == IF neg THEN Sub(x.a, d) ELSE Add(x.a, d)
                    IN IF r.over THEN [ok |-> FALSE, o |-> x] ELSE [ok |-> TRUE, o |-> [a |-> r.v, p |-> x.p]]
SetOffset(x, neg, d) ==
  LET h == Hostmask(Len(x.a), x.p) IN
  IF (neg /\ d # Zero(Len(x.a))) \/ Less(h, d) THEN [ok |-> FALSE, o |-> x]
  ELSE [ok |-> TRUE, o |-> [a |-> Plus(Net(x), d), p |-> x.p]]
SetPrefix(x, p) == IF p \in 0..Width(x.a) THEN [ok |-> TRUE, o |-> [a |-> x.a, p |-> p]] ELSE [ok |-> FALSE, o |-> x]
(* usable host count as limbs *)
NumHosts(n, p) == LET W == BITS * n IN
  IF p = W THEN One(n) ELSE IF p = W - 1 THEN [i \in 1..n |-> IF i = n THEN 2 ELSE 0]
  ELSE Minus(Hostmask(n, p), One(n))

(* ---- summarisation ---- *)
RECURSIVE Covered(_, _)
Half(x, upper) == LET q == x.p + 1
                      i == ((q - 1) \div BITS) + 1
                      bit == Pow2[BITS * i - q]
                  IN [a |-> IF upper THEN [x.a EXCEPT ![i] = @ + bit] ELSE x.a, p |-> q]
Covered(x, S) == \* every address of the network x lies in some network of S
  \/ \E s \in S : Contains_(s, x)
  \/ /\ x.p < Width(x.a)
     /\ LET lo == Half(x, FALSE)  hi == Half(x, TRUE)
            L == {s \in S : Contains_(lo, s)}  H == {s \in S : Contains_(hi, s)}
        IN L # {} /\ H # {} /\ Covered(lo, L) /\ Covered(hi, H)
NetAt(a, p) == [a |-> Network(a, p), p |-> p]
RECURSIVE Widen(_, _, _)
Widen(a, p, S) == IF p > 0 /\ Covered(NetAt(a, p - 1), S) THEN Widen(a, p - 1, S) ELSE NetAt(a, p)
Largest(s, S) == Widen(s.a, s.p, S)   \* the largest network around s that S covers
RECURSIVE SortNets(_)
SortNets(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<m>> \o SortNets(S \ {m})
Collapse(S) == SortNets({Largest(s, S) : s \in S})
(* stable sort of a sequence of objects *)
RECURSIVE InsertObj(_, _)
InsertObj(x, s) == IF s = <<>> THEN <<x>>
                   ELSE IF Before(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o InsertObj(x, Tail(s))
RECURSIVE SortObjs(_)
SortObjs(s) == IF s = <<>> THEN <<>> ELSE InsertObj(s[Len(s)], SortObjs(SubSeq(s, 1, Len(s) - 1)))
=============================================================================
