------------------------------- MODULE MCAttr -------------------------------
(* Every interface stanza of at most MaxLen commands: a command which no template
   of an attribute fits has no influence on it, and the first that fits decides. *)
EXTENDS Attr, Json
CONSTANTS Cmds, MaxLen, Head_, Emit
VARIABLES seq, val
LinesOf(s) == [i \in 1..Len(s) |-> LineOf(Chars(" " \o s[i]))]
Tables == IOS_TABLE \o IP_TABLE \o SWITCH_TABLE
Vals(s) == [i \in 1..Len(Tables) |-> [h |-> Has(Tables[i][3], LinesOf(s)), v |-> <<ValueOf(Tables[i], LinesOf(s))>>]]
Init == seq = <<>> /\ val = Vals(<<>>)
Next == Len(seq) < MaxLen /\ \E c \in Cmds : seq' = Append(seq, c) /\ val' = Vals(seq')
Spec == Init /\ [][Next]_<<seq, val>>
Steps == [][\A i \in 1..Len(Tables) :
              (val[i].h \/ ~FitsSome(Tables[i][3], LineOf(Chars(seq'[Len(seq')])).w)) => val'[i] = val[i]]_<<seq, val>>
(* an attribute nobody sets has its default *)
Defaults == \A i \in 1..Len(Tables) : ~val[i].h => val[i].v = <<Tables[i][5]>>
Emitted == Emit => PrintT("GEN " \o ToJson(<<seq, IosIntf(Chars(Head_), LinesOf(seq), <<>>) \o SwitchAttrs(LinesOf(seq))>>))
=============================================================================
