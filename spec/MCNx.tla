-------------------------------- MODULE MCNx --------------------------------
(* Every NX-OS (or IOS-XR) interface stanza of at most MaxLen commands and every
   HSRP block of at most MaxSub commands: a command which no template of an
   attribute fits has no influence on it, the first that fits decides, and the
   commands of the block say nothing about the interface itself. *)
EXTENDS NxLines, Json
CONSTANTS Cmds, Subs, MaxLen, MaxSub, Head_, Nx
VARIABLES seq, sub, val, all
Ln(c) == LineOf(Chars(" " \o c))
Block(s, b) == [i \in 1..Len(s) |-> [l |-> Ln(s[i]), sub |-> IF s[i] = "hsrp 10" THEN [k \in 1..Len(b) |-> Ln(b[k])] ELSE <<>>]]
Tables == IF Nx THEN NX_TABLE \o NXIP_TABLE \o NXSWITCH_TABLE ELSE XR_TABLE
LinesOf(s) == [i \in 1..Len(s) |-> Ln(s[i])]
Vals(s) == [i \in 1..Len(Tables) |-> [h |-> Has(Tables[i][3], LinesOf(s)), v |-> <<ValueOf(Tables[i], LinesOf(s))>>]]
All(s, b) == IF Nx THEN NxIntf(Chars(Head_), Block(s, b), <<>>) ELSE XrIntf(Chars(Head_), Block(s, b), <<>>)
HasBlock(s) == \E i \in 1..Len(s) : s[i] = "hsrp 10"
Init == seq = <<>> /\ sub = <<>> /\ val = Vals(<<>>) /\ all = All(<<>>, <<>>)
Next == \/ Len(seq) < MaxLen /\ sub = <<>> /\ (\E c \in Cmds : ~(c = "hsrp 10" /\ HasBlock(seq)) /\ seq' = Append(seq, c)) /\ sub' = sub /\ val' = Vals(seq') /\ all' = All(seq', sub)
        \/ HasBlock(seq) /\ Len(sub) < MaxSub /\ (\E c \in Subs : sub' = Append(sub, c)) /\ seq' = seq /\ val' = val /\ all' = All(seq, sub')
Spec == Init /\ [][Next]_<<seq, sub, val, all>>
Steps == [][seq' # seq => \A i \in 1..Len(Tables) : (val[i].h \/ ~FitsSome(Tables[i][3], Ln(seq'[Len(seq')]).w)) => val'[i] = val[i]]_<<seq, sub, val, all>>
HS == {"hsrp_group", "hsrp_ip_addr", "has_ip_hsrp", "hsrp_priority", "hsrp_hello_timer", "hsrp_hold_timer", "hsrp_track", "has_hsrp_track", "has_hsrp_preempt"}
BlockIsLocal == [][sub' # sub => \A i \in 1..Len(all) : all[i][1] \notin HS => all'[i] = all[i]]_<<seq, sub, val, all>>
Defaults == \A i \in 1..Len(Tables) : ~val[i].h => val[i].v = <<Tables[i][5]>>
Emitted == PrintT("GEN " \o ToJson(<<seq, sub, all>>))
=============================================================================
