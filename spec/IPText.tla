------------------------------- MODULE IPText -------------------------------
(* The notations of IPv4 and IPv6 addresses: reading and printing.  Texts are
   character sequences; addresses 4 or 16 bytes. *)
EXTENDS Text
IP == INSTANCE IPNet WITH BITS <- 8
BAD_ == [ok |-> FALSE, a |-> <<>>, p |-> 0]
Good(a, p) == [ok |-> TRUE, a |-> a, p |-> p]

(* ---- decimal and hexadecimal numbers of any size ---- *)
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, m, c) == \* decimal digits (least significant first) * m + c
  IF ds = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, m, c \div 10)
  ELSE LET s == ds[1] * m + c IN <<s % 10>> \o MulAdd(Tail(ds), m, s \div 10)
RECURSIVE DecFrom(_, _, _)
DecFrom(a, i, ds) == IF i > Len(a) THEN ds ELSE DecFrom(a, i + 1, MulAdd(ds, 256, a[i]))
DecDigits(a) == DecFrom(a, 1, <<>>)
Dec(a) == LET ds == DecDigits(a) IN
          IF ds = <<>> THEN "0" ELSE LET r == Rev(ds) IN Str([i \in 1..Len(r) |-> ToString(r[i])])
(* decimal text to n bytes; over says whether it does not fit *)
RECURSIVE MulAddB(_, _, _, _)
MulAddB(b, i, m, c) == IF i = 0 THEN [over |-> c # 0, v |-> <<>>]
  ELSE LET s == b[i] * m + c  r == MulAddB(b, i - 1, m, s \div 256)
       IN [over |-> r.over, v |-> Append(r.v, s % 256)]
RECURSIVE BytesFrom(_, _, _)
BytesFrom(t, k, acc) == IF k > Len(t) THEN acc
  ELSE LET r == MulAddB(acc.v, Len(acc.v), 10, DigitVal[t[k]]) IN
       BytesFrom(t, k + 1, [over |-> acc.over \/ r.over, v |-> r.v])
DecBytes(t, n) == BytesFrom(t, 1, [over |-> FALSE, v |-> IP!Zero(n)])

Hex1(n) == HexDigits[n + 1]
HexByte(b) == Hex1(b \div 16) \o Hex1(b % 16)
RECURSIVE DropZeros(_)
DropZeros(t) == IF Len(t) > 1 /\ t[1] = "0" THEN DropZeros(Tail(t)) ELSE t
HexAll(a) == "0x" \o Str(DropZeros(Concat([i \in 1..Len(a) |-> <<Hex1(a[i] \div 16), Hex1(a[i] % 16)>>])))
BinByte(b) == Str([i \in 1..8 |-> IF (b \div 2 ^ (8 - i)) % 2 = 1 THEN "1" ELSE "0"])

(* ---- IPv4 ---- *)
Octet(t) == Len(t) \in 1..3 /\ IsDigits(t) /\ (Len(t) = 1 \/ t[1] # "0") /\ NatOf(t) <= 255
Quad(t) == LET ps == SplitChar(t, ".") IN
           IF Len(ps) = 4 /\ \A i \in 1..4 : Octet(ps[i]) THEN Good([i \in 1..4 |-> NatOf(ps[i])], 32) ELSE BAD_
MaskLen(a) == LET S == {p \in 0..32 : IP!Netmask(4, p) = a}
                  H == {p \in 0..32 : IP!Hostmask(4, p) = a}
              IN IF S # {} THEN CHOOSE p \in S : TRUE ELSE IF H # {} THEN CHOOSE p \in H : TRUE ELSE -1
PrefixNum(t, w) == IF IsDigits(t) /\ Len(t) <= 4 /\ NatOf(t) <= w THEN NatOf(t) ELSE -1
AddrAndMask(x, m) == \* texts of an address and of a length or mask
  LET q == Quad(x)
      n == PrefixNum(m, 32)
      k == IF n >= 0 THEN n ELSE LET mm == Quad(m) IN IF mm.ok THEN MaskLen(mm.a) ELSE -1
  IN IF q.ok /\ k >= 0 THEN Good(q.a, k) ELSE BAD_
ReadV4(t0) ==
  LET t == Strip(t0)
      ws == Words(t)
      sl == SplitChar(t, "/")
  IN IF Len(ws) = 2 THEN LET mm == Quad(ws[2]) IN IF mm.ok THEN AddrAndMask(ws[1], ws[2]) ELSE BAD_
     ELSE IF Len(ws) # 1 THEN BAD_
     ELSE IF Len(sl) = 1 THEN Quad(t)
     ELSE IF Len(sl) = 2 THEN AddrAndMask(sl[1], sl[2]) ELSE BAD_
ShowV4(a) == ToString(a[1]) \o "." \o ToString(a[2]) \o "." \o ToString(a[3]) \o "." \o ToString(a[4])
Pad3(n) == (IF n < 10 THEN "00" ELSE IF n < 100 THEN "0" ELSE "") \o ToString(n)
Padded(a) == Pad3(a[1]) \o "." \o Pad3(a[2]) \o "." \o Pad3(a[3]) \o "." \o Pad3(a[4])

(* ---- IPv6 ---- *)
HEXSET == DIGITS \cup {"a", "b", "c", "d", "e", "f"}
Group1(t) == Len(t) \in 1..4 /\ \A i \in 1..Len(t) : LowC(t[i]) \in HEXSET
RECURSIVE HexNum(_, _)
HexNum(t, acc) == IF t = <<>> THEN acc ELSE HexNum(Tail(t), acc * 16 + HexVal[LowC(Head(t))])
GroupBytes(t) == LET n == HexNum(t, 0) IN <<n \div 256, n % 256>>
(* a colon-separated list of groups, the last one possibly an IPv4 address:
   bytes, or not ok.  The empty text is the empty list. *)
Groups(t, tail4) ==
  IF t = <<>> THEN Good(<<>>, 0)
  ELSE LET gs == SplitChar(t, ":")
           n == Len(gs)
           four == tail4 /\ Quad(gs[n]).ok
           plain(i) == Group1(gs[i])
       IN IF \A i \in 1..n : plain(i) \/ (i = n /\ four)
          THEN Good(Concat([i \in 1..n |-> IF i = n /\ four THEN Quad(gs[n]).a ELSE GroupBytes(gs[i])]), 0)
          ELSE BAD_
DoubleColons(t) == {i \in 1..(Len(t) - 1) : t[i] = ":" /\ t[i + 1] = ":"}
ReadV6Addr(t) ==
  LET D == DoubleColons(t) IN
  IF D = {} THEN LET g == Groups(t, TRUE) IN IF g.ok /\ Len(g.a) = 16 THEN Good(g.a, 128) ELSE BAD_
  ELSE IF Cardinality(D) > 1 THEN BAD_
  ELSE LET d == MinOf(D)
           l == Groups(SubSeq(t, 1, d - 1), FALSE)
           r == Groups(SubSeq(t, d + 2, Len(t)), TRUE)
       IN IF l.ok /\ r.ok /\ Len(l.a) + Len(r.a) <= 14
          THEN Good(l.a \o IP!Zero(16 - Len(l.a) - Len(r.a)) \o r.a, 128) ELSE BAD_
ReadV6(t0) ==
  LET ws == Words(t0)
      t == IF Len(ws) = 2 THEN ws[1] \o <<"/">> \o ws[2] ELSE IF Len(ws) = 1 THEN ws[1] ELSE <<>>
      sl == SplitChar(t, "/")
      q == ReadV6Addr(sl[1])
  IN IF t = <<>> \/ Len(sl) > 2 \/ ~q.ok THEN BAD_
     ELSE IF Len(sl) = 1 THEN q
     ELSE LET n == PrefixNum(sl[2], 128) IN IF n >= 0 THEN Good(q.a, n) ELSE BAD_

G(a, i) == a[2 * i - 1] * 256 + a[2 * i]
RECURSIVE HexShort(_)
HexShort(n) == IF n < 16 THEN Hex1(n) ELSE HexShort(n \div 16) \o Hex1(n % 16)
Hex4(n) == Hex1(n \div 4096) \o Hex1((n \div 256) % 16) \o Hex1((n \div 16) % 16) \o Hex1(n % 16)
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o sep \o JoinStr(Tail(ss), sep)
GroupTexts(a, lo, hi) == [i \in 1..(hi - lo + 1) |-> HexShort(G(a, lo + i - 1))]
Runs(a) == {<<i, j>> \in (1..8) \X (1..8) : i < j /\ \A k \in i..j : G(a, k) = 0}
Best(a) == CHOOSE r \in Runs(a) : \A q \in Runs(a) : q[2] - q[1] < r[2] - r[1] \/ (q[2] - q[1] = r[2] - r[1] /\ q[1] >= r[1])
ShowV6(a) ==
  IF Runs(a) = {} THEN JoinStr(GroupTexts(a, 1, 8), ":")
  ELSE LET r == Best(a) IN JoinStr(GroupTexts(a, 1, r[1] - 1), ":") \o "::" \o JoinStr(GroupTexts(a, r[2] + 1, 8), ":")
LongV6(a) == JoinStr([i \in 1..8 |-> Hex4(G(a, i))], ":")
=============================================================================
