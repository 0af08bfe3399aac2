-------------------------------- MODULE MCIP --------------------------------
(* Exhaustive model of address objects in a small address space (LIMBS limbs of
   BITS bits): every object, every pair, every assignment, sum and difference.
   The laws below define the IPNet operators by sets of addresses. *)
EXTENDS IPNet
CONSTANTS LIMBS, NETBITS
VARIABLES x, y, phase, r, ok
W == BITS * LIMBS
Addrs == [1..LIMBS -> 0..(BASE - 1)]
RECURSIVE ValFrom(_, _)
ValFrom(a, i) == IF i = 0 THEN 0 ELSE ValFrom(a, i - 1) * BASE + a[i]
Val(a) == ValFrom(a, Len(a))
Objects == [a : Addrs, p : 0..W]
NumOf(k) == CHOOSE a \in Addrs : Val(a) = k
Members(o) == {v \in 0..(2 ^ W - 1) : v \div 2 ^ (W - o.p) = Val(o.a) \div 2 ^ (W - o.p)}

vars == <<x, y, phase, r, ok>>
Init == x \in Objects /\ y \in Objects /\ phase = "pair" /\ r = x /\ ok = TRUE
DoShift == phase = "pair" /\ \E neg \in BOOLEAN :
             LET s == Shift(x, neg, y.a) IN r' = s.o /\ ok' = s.ok /\ phase' = (IF neg THEN "minus" ELSE "plus")
DoOffset == phase = "pair" /\ \E neg \in BOOLEAN :
             LET s == SetOffset(x, neg, y.a) IN r' = s.o /\ ok' = s.ok /\ phase' = (IF neg THEN "negoffset" ELSE "offset")
DoPrefix == phase = "pair" /\ LET s == SetPrefix(x, y.p) IN r' = s.o /\ ok' = s.ok /\ phase' = "prefix"
Next == (DoShift \/ DoOffset \/ DoPrefix) /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars

NetworkLaw == /\ Val(Net(x)) = MinOf(Members(x)) /\ Val(Last(x.a, x.p)) = MaxOf(Members(x))
              /\ Val(HostBits(x.a, x.p)) = Val(x.a) - Val(Net(x))
              /\ \A i \in 1..LIMBS : Netmask(LIMBS, x.p)[i] + Hostmask(LIMBS, x.p)[i] = BASE - 1
              /\ x.p <= W - 2 => Val(NumHosts(LIMBS, x.p)) = Cardinality(Members(x)) - 2
ContainsLaw == Contains_(x, y) <=> Members(y) \subseteq Members(x)
OrderLaw == /\ (x = y) <=> (~Before(x, y) /\ ~Before(y, x))
            /\ ~(Before(x, y) /\ Before(y, x))
            /\ (Contains_(x, y) /\ x.p < y.p) => Before(x, y)
ArithLaw == CASE phase = "plus" -> (ok <=> Val(x.a) + Val(y.a) <= 2 ^ W - 1) /\ (ok => Val(r.a) = Val(x.a) + Val(y.a) /\ r.p = x.p)
              [] phase = "minus" -> (ok <=> Val(x.a) >= Val(y.a)) /\ (ok => Val(r.a) = Val(x.a) - Val(y.a) /\ r.p = x.p)
              [] phase = "offset" -> (ok <=> Val(y.a) < Cardinality(Members(x)))
                                     /\ (ok => Val(HostBits(r.a, r.p)) = Val(y.a) /\ Net(r) = Net(x) /\ r.p = x.p)
              [] phase = "negoffset" -> ok => (Val(y.a) = 0 /\ r.a = Net(x))
              [] phase = "prefix" -> ok /\ r.a = x.a /\ r.p = y.p
              [] OTHER -> TRUE
(* inverse: what was added can be subtracted again *)
InverseLaw == phase = "plus" /\ ok => Shift(r, TRUE, y.a) = [ok |-> TRUE, o |-> x]
=============================================================================
