------------------------------ MODULE MCTrunk -------------------------------
(* Every sequence of at most MaxLen allowed-vlan commands: the set of allowed
   VLANs stays inside 1..4094, each command acts on the set the ones before it
   left, and all/none forget what was before. *)
EXTENDS Attr, Json
CONSTANTS Cmds, MaxLen
VARIABLES seq, set
Wd(c) == LET ws == Words(Chars(c)) IN [i \in 1..Len(ws) |-> Str(ws[i])]
Init == seq = <<>> /\ set = 1..VMAX
Next == Len(seq) < MaxLen /\ \E c \in Cmds : seq' = Append(seq, c) /\ set' = Apply1(set, Wd(c))
Spec == Init /\ [][Next]_<<seq, set>>
Inside == set \subseteq 1..VMAX
Added(c) == Len(Wd(c)) = 2 /\ Wd(c)[1] = "add"
Removed(c) == Len(Wd(c)) = 2 /\ Wd(c)[1] # "add"
Steps == [][LET c == seq'[Len(seq')] IN
            /\ Added(c) => set' = set \cup (set' \ set) /\ VlanList(Wd(c)[2]) \subseteq set' /\ (set' \ set) \subseteq VlanList(Wd(c)[2])
            /\ Removed(c) => set' \subseteq set /\ VlanList(Wd(c)[2]) \cap set' = {} /\ (set \ set') \subseteq VlanList(Wd(c)[2])
            /\ c = "all" => set' = 1..VMAX
            /\ c = "none" => set' = {}
            /\ set' = ApplyAll(1..VMAX, [i \in 1..Len(seq') |-> Wd(seq'[i])])]_<<seq, set>>
Emitted == seq # <<>> => PrintT("GEN " \o ToJson(<<seq, RunList(set)>>))
=============================================================================
