------------------------------- MODULE Ranges -------------------------------
(* Cisco range expressions.  A range of interfaces varies the last number of the
   first element (channel, else subinterface, else port); everything else of the
   name comes from the first element. *)
EXTENDS Intf
INTS == [kind |-> "int"]

Parts(t) == [i \in 1..Len(SplitChar(t, ",")) |-> Strip(SplitChar(t, ",")[i])]
(* the trailing class word of a range text, if any *)
ClassWord(t) == LET w == Words(t) IN IF Len(w) < 2 THEN <<>>
                ELSE IF \A i \in 1..Len(w[Len(w)]) : w[Len(w)][i] \in CLASSCH THEN w[Len(w)] ELSE <<>>
NoClass(t) == IF ClassWord(t) = <<>> THEN t ELSE Strip(SubSeq(Strip(t), 1, Len(Strip(t)) - Len(ClassWord(t))))
(* the first hyphen after the first digit separates the bounds *)
Hyphen(p) == LET D == {i \in 1..Len(p) : p[i] \in DIGITS} IN
             IF D = {} THEN 0 ELSE LET S == {i \in MinOf(D)..Len(p) : p[i] = "-"} IN IF S = {} THEN 0 ELSE MinOf(S)
Lower(p) == IF Hyphen(p) = 0 THEN p ELSE Strip(SubSeq(p, 1, Hyphen(p) - 1))
UpperNum(p) == NatOf(Strip(SubSeq(p, Hyphen(p) + 1, Len(p))))
LastNum(p) == \* the last run of digits
  LET E == {i \in 1..Len(p) : \A j \in i..Len(p) : p[j] \in DIGITS} IN NatOf(SubSeq(p, MinOf(E), Len(p)))
Span(p) == IF Hyphen(p) = 0 THEN {LastNum(p)} ELSE LastNum(Lower(p))..UpperNum(p)
ReadMembers(t, ints) == IF Strip(t) = <<>> THEN {} ELSE LET ps == Parts(NoClass(t)) IN UNION {Span(ps[i]) : i \in 1..Len(ps)}
ReadBase(t, ints, xr) == IF ints \/ Strip(t) = <<>> THEN NOINTF
                     ELSE [ReadIntf(Lower(Parts(NoClass(t))[1]), xr) EXCEPT !.cls = ClassWord(t)]
Vary(b, n) == IF ~b.ok THEN b ELSE IF b.chan >= 0 THEN [b EXCEPT !.chan = n] ELSE IF b.sub >= 0 THEN [b EXCEPT !.sub = n]
              ELSE SetPart(b, Len(b.parts), n)
MemberText(b, n) == IF ~b.ok THEN NatChars(n) ELSE ShowIntf(Vary(b, n))

(* shortest ascending notation: runs of three and more as bounds *)
RECURSIVE RunEnd(_, _)
RunEnd(m, i) == IF i < Len(m) /\ m[i + 1] = m[i] + 1 THEN RunEnd(m, i + 1) ELSE i
RECURSIVE Pieces(_, _)
Pieces(m, i) == IF i > Len(m) THEN <<>>
  ELSE LET e == RunEnd(m, i) IN
       IF e = i THEN <<NatChars(m[i])>> \o Pieces(m, i + 1)
       ELSE IF e = i + 1 THEN <<NatChars(m[i]), NatChars(m[e])>> \o Pieces(m, e + 1)
       ELSE <<NatChars(m[i]) \o <<"-">> \o NatChars(m[e])>> \o Pieces(m, e + 1)
Stem(b) == LET full == ShowIntf([Vary(b, 0) EXCEPT !.cls = <<>>]) IN SubSeq(full, 1, Len(full) - 1)
Compress(b, m) == IF m = <<>> THEN <<>>
  ELSE (IF b.ok THEN Stem(b) ELSE <<>>) \o JoinWith(Pieces(m, 1), <<",">>) \o (IF b.ok /\ b.cls # <<>> THEN <<" ">> \o b.cls ELSE <<>>)
=============================================================================
