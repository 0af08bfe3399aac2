-------------------------------- MODULE Text --------------------------------
(* Text as the library sees it: a line is a sequence of one-character strings. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Chars(s) == TLCEval([i \in 1..Len(s) |-> SubSeq(s, i, i)]) \* TLCEval: a function constructor is otherwise evaluated anew at each use

RECURSIVE StrFrom(_, _, _)
StrFrom(t, lo, hi) ==
  IF hi < lo THEN ""
  ELSE IF hi = lo THEN t[lo]
  ELSE LET m == (lo + hi) \div 2 IN StrFrom(t, lo, m) \o StrFrom(t, m + 1, hi)
Str(t) == StrFrom(t, 1, Len(t))

WS == {" ", "\t", "\n", "\r", "\f"}
DIGITS == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LOWERSEQ == Chars("abcdefghijklmnopqrstuvwxyz")
UPPERSEQ == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER == {LOWERSEQ[i] : i \in 1..26}
UPPER == {UPPERSEQ[i] : i \in 1..26}
ALPHA == LOWER \cup UPPER
WORD == ALPHA \cup DIGITS \cup {"_"}

ToLowerC == [ch \in ALPHA |-> IF ch \in UPPER THEN LOWERSEQ[CHOOSE i \in 1..26 : UPPERSEQ[i] = ch] ELSE ch]
LowC(ch) == IF ch \in UPPER THEN ToLowerC[ch] ELSE ch
Low(t) == [i \in 1..Len(t) |-> LowC(t[i])]

DigitVal == [d \in DIGITS |-> CHOOSE n \in 0..9 : ToString(n) = d]
HexDigits == Chars("0123456789abcdef")
HexVal == [ch \in DIGITS \cup {"a","b","c","d","e","f"} |-> CHOOSE n \in 0..15 : HexDigits[n + 1] = ch]

RECURSIVE SumDigits(_, _)
SumDigits(t, acc) == IF t = <<>> THEN acc ELSE SumDigits(Tail(t), acc * 10 + DigitVal[Head(t)])
NatOf(t) == SumDigits(t, 0)          \* t: non-empty sequence of digits, value below 2^31
IsDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in DIGITS
NatStr(n) == ToString(n)
NatChars(n) == Chars(ToString(n))

(* ---- stripping and indentation (Python strip/lstrip/rstrip) ---- *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
NonWs(t) == {i \in 1..Len(t) : t[i] \notin WS}
IsBlank(t) == NonWs(t) = {}
RStrip(t) == LET k == NonWs(t) IN IF k = {} THEN <<>> ELSE SubSeq(t, 1, MaxOf(k))
LStrip(t) == LET k == NonWs(t) IN IF k = {} THEN <<>> ELSE SubSeq(t, MinOf(k), Len(t))
Strip(t) == LStrip(RStrip(t))
IndentOf(t) == LET k == NonWs(t) IN IF k = {} THEN 0 ELSE MinOf(k) - 1
Spaces(n) == [i \in 1..n |-> " "]

(* ---- substrings ---- *)
StartsAt(t, k, p) == k + Len(p) - 1 <= Len(t) /\ \A i \in 1..Len(p) : t[k + i - 1] = p[i]
StartsWith(t, p) == StartsAt(t, 1, p)
EndsWith(t, p) == Len(t) >= Len(p) /\ StartsAt(t, Len(t) - Len(p) + 1, p)
Contains(t, p) == \E k \in 1..(Len(t) - Len(p) + 1) : StartsAt(t, k, p)
CountChar(t, ch) == Cardinality({i \in 1..Len(t) : t[i] = ch})

(* Python str.split(): maximal runs of non-whitespace *)
Words(t) ==
  LET starts == {i \in NonWs(t) : i = 1 \/ t[i - 1] \in WS}
      endOf(i) == MinOf({j \in i..Len(t) : j = Len(t) \/ t[j + 1] \in WS})
      RECURSIVE go(_)
      go(S) == IF S = {} THEN <<>>
               ELSE LET i == MinOf(S) IN <<SubSeq(t, i, endOf(i))>> \o go(S \ {i})
  IN go(starts)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN <<>>
                     ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE Head(ss) \o sep \o JoinWith(Tail(ss), sep)

(* split on a single character, keeping empty parts (Python str.split(ch)) *)
SplitChar(t, ch) ==
  LET RECURSIVE go(_, _)
      go(i, j) == \* i: start of the part, j: position examined
        IF j > Len(t) THEN <<SubSeq(t, i, Len(t))>>
        ELSE IF t[j] = ch THEN <<SubSeq(t, i, j - 1)>> \o go(j + 1, j + 1)
        ELSE go(i, j + 1)
  IN go(1, 1)

(* ---- sequences of numbers ---- *)
SortSet(S) ==
  LET RECURSIVE go(_)
      go(R) == IF R = {} THEN <<>> ELSE LET m == MinOf(R) IN <<m>> \o go(R \ {m})
  IN go(S)
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
=============================================================================
