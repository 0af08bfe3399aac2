------------------------------ MODULE Commands ------------------------------
(* Commands derived from a line: the one that withdraws it, and the one that puts
   it back to its default, which reset() inserts right before it. *)
EXTENDS Source

LowerNo == {Chars("no"), Chars("No"), Chars("nO"), Chars("NO")}
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<" ">> \o Spaced(Tail(ws))
Pad(n) == [i \in 1..n |-> " "]
(* a line that starts with "no" and says something else is withdrawn by the rest of it *)
Uncfg(t) == LET ws == Words(t) i == IndentOf(t) IN
            IF Len(ws) > 1 /\ ws[1] \in LowerNo THEN Pad(i) \o Spaced(Tail(ws)) ELSE Pad(i) \o Chars("no ") \o LStrip(t)
ResetText(t) == Chars("default ") \o t
(* the lines after reset() of line i *)
Reset(txt, i) == SubSeq(txt, 1, i - 1) \o <<ResetText(txt[i])>> \o SubSeq(txt, i, Len(txt))
=============================================================================
