-------------------------------- MODULE Intf --------------------------------
(* Cisco interface names: components, canonical rendering, order.  IOS names have
   up to three slash-separated numbers, IOS-XR names one or four components (any
   of the first three may be a word such as RSP0). -1 and "" mean absent. *)
EXTENDS Text

NOINTF == [ok |-> FALSE, prefix |-> <<>>, parts |-> <<>>, sub |-> -1, chan |-> -1, cls |-> <<>>]
PREFIXCH == ALPHA \cup {"-", " "}
CLASSCH == ALPHA \cup {"-"}
Lesser2_(x, y) == IF x < y THEN x ELSE y
Upto(t, ch) == LET S == {i \in 1..Len(t) : t[i] = ch} IN IF S = {} THEN Len(t) ELSE MinOf(S) - 1
NumIn(t) == IsDigits(t) /\ Len(t) <= 8

(* text -> components; ok only for the valid names *)
ReadIntf(t0, xr) ==
  LET t == Strip(t0)
      D == {i \in 1..Len(t) : t[i] \in DIGITS}
  IN IF D = {} THEN NOINTF
     ELSE LET d == MinOf(D)
              prefix == Strip(SubSeq(t, 1, d - 1))
              rest == Words(SubSeq(t, d, Len(t)))
              num == rest[1]
              cls == IF Len(rest) = 2 THEN rest[2] ELSE <<>>
              main == SubSeq(num, 1, Lesser2_(Upto(num, "."), Upto(num, ":")))
              tail == SubSeq(num, Len(main) + 1, Len(num))
              hasSub == tail # <<>> /\ tail[1] = "."
              subT == IF hasSub THEN SubSeq(tail, 2, Upto(tail, ":")) ELSE <<>>
              tail2 == IF hasSub THEN SubSeq(tail, Len(subT) + 2, Len(tail)) ELSE tail
              chanT == IF tail2 # <<>> THEN SubSeq(tail2, 2, Len(tail2)) ELSE <<>>
              parts == SplitChar(main, "/")
              n == Len(parts)
          IN IF /\ \A i \in 1..Len(prefix) : prefix[i] \in PREFIXCH
                /\ Len(rest) <= 2 /\ \A i \in 1..Len(cls) : cls[i] \in CLASSCH \/ (xr /\ i > 1 /\ cls[i] \in DIGITS)
                /\ IF xr THEN n \in {1, 4} /\ \A i \in 1..n : Len(parts[i]) > 1 => parts[i][1] # "0" ELSE n \in 1..3
                /\ NumIn(parts[n])
                /\ \A i \in 1..(n - 1) : IF xr THEN parts[i] # <<>> /\ \A j \in 1..Len(parts[i]) : parts[i][j] \in WORD \ {"_"} ELSE NumIn(parts[i])
                /\ (hasSub => NumIn(subT)) /\ (tail2 # <<>> => tail2[1] = ":" /\ NumIn(chanT))
             THEN [ok |-> TRUE, prefix |-> prefix,
                   parts |-> [i \in 1..n |-> IF NumIn(parts[i]) THEN NatChars(NatOf(parts[i])) ELSE parts[i]],
                   sub |-> IF hasSub THEN NatOf(subT) ELSE -1, chan |-> IF tail2 # <<>> THEN NatOf(chanT) ELSE -1, cls |-> cls]
             ELSE NOINTF

Number(x) == JoinWith(x.parts, <<"/">>)
Suffix(x) == (IF x.sub >= 0 THEN <<".">> \o NatChars(x.sub) ELSE <<>>) \o (IF x.chan >= 0 THEN <<":">> \o NatChars(x.chan) ELSE <<>>)
             \o (IF x.cls # <<>> THEN <<" ">> \o x.cls ELSE <<>>)
ShowIntf(x) == x.prefix \o Number(x) \o Suffix(x)
(* the component called nm, as text; "" when absent *)
Slot(x) == IF Len(x.parts) = 1 THEN <<>> ELSE x.parts[1]
Card(x) == IF Len(x.parts) \in {3, 4} THEN x.parts[2] ELSE <<>>
Proc(x) == IF Len(x.parts) = 4 THEN x.parts[3] ELSE <<>>
Port(x) == x.parts[Len(x.parts)]

(* order of two interfaces of one type: slot, card, (processor), port,
   subinterface, channel, class; an absent component comes first *)
Key(x) == <<Slot(x), Card(x), Proc(x), Port(x), IF x.sub < 0 THEN <<>> ELSE NatChars(x.sub),
            IF x.chan < 0 THEN <<>> ELSE NatChars(x.chan)>>
Comparable(a, b) == (a = <<>> \/ b = <<>>) \/ (IsDigits(a) /\ IsDigits(b)) \/ a = b
Less1(a, b) == a # b /\ (a = <<>> \/ (b # <<>> /\ NatOf(a) < NatOf(b)))
RECURSIVE KeyLess(_, _, _)
KeyLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN Less1(a[i], b[i]) ELSE KeyLess(a, b, i + 1)
(* the order is defined when the first difference is between numbers *)
RECURSIVE KeysOrdered(_, _, _)
KeysOrdered(a, b, i) == IF i > Len(a) THEN TRUE
                        ELSE IF a[i] # b[i] THEN Comparable(a[i], b[i]) ELSE KeysOrdered(a, b, i + 1)
IntfLess(x, y) == KeyLess(Key(x), Key(y), 1)
SetPart(x, k, v) == [x EXCEPT !.parts = [i \in 1..Len(x.parts) |-> IF i = k THEN NatChars(v) ELSE x.parts[i]]]
=============================================================================
