------------------------------- MODULE MCLines ------------------------------
(* Lines built word by word and the commands given below them: every AAA line of
   at most MaxWords further words, every access line and server group of at most
   MaxLen commands. What a line says is settled by its first words, a further method
   only extends the methods, the commands below an AAA, global or hostname line say
   nothing, the first exec-timeout decides, server-private only adds servers. *)
EXTENDS Lines, Json
CONSTANTS Heads, Vocab, Cmds, MaxWords, MaxLen, Nx
VARIABLES head, more, seq, val
Ln(c) == LineOf(Chars(" " \o c))
RECURSIVE Glue(_, _)
Glue(s, ws) == IF ws = <<>> THEN s ELSE Glue(s \o " " \o Head(ws), Tail(ws))
HeadLine(h, m) == LineOf(Chars(Glue(h, m)))
Val(h, m, s) == LineAttrs(HeadLine(h, m).w, [i \in 1..Len(s) |-> Ln(s[i])], Nx)
At(v, n) == {v[i][2] : i \in {k \in 1..Len(v) : v[k][1] = n}}
Kind == CHOOSE x \in At(val, "kind") : TRUE
IsAaa == Kind \in {"AaaLogin", "AaaEnable", "AaaCommands", "AaaConsole", "AcctCommands", "AcctExec"}
Acct == Kind \in {"AcctCommands", "AcctExec"}
(* "group" must be followed by a name *)
Whole(m) == IF m = <<>> THEN TRUE ELSE m[Len(m)] # "group"
Init == head \in Heads /\ more = <<>> /\ seq = <<>> /\ val = Val(head, <<>>, <<>>)
Next == \/ IsAaa /\ seq = <<>> /\ Len(more) < MaxWords
           /\ \E x \in Vocab : ~(~Whole(more) /\ x = "group") /\ more' = Append(more, x) /\ val' = Val(head, more', <<>>) /\ UNCHANGED <<head, seq>>
        \/ Whole(more) /\ Len(seq) < MaxLen /\ (\E c \in Cmds : seq' = Append(seq, c)) /\ val' = Val(head, more, seq') /\ UNCHANGED <<head, more>>
Spec == Init /\ [][Next]_<<head, more, seq, val>>
vars_ == <<head, more, seq, val>>
OwnWords == [][(seq' # seq /\ Kind \notin {"Access", "AaaGroup"}) => val' = val]_vars_
FirstTimeout == [][(Kind = "Access" /\ seq' # seq /\ (At(val, "parse_exectimeout") # {<<>>} \/ ~FitsSome(EXECT, Ln(seq'[Len(seq')]).w))) => val' = val]_vars_
Servers == [][(Kind = "AaaGroup" /\ seq' # seq) => LET c == Ln(seq'[Len(seq')]).w IN
                At(val', "server_private") = {(CHOOSE x \in At(val, "server_private") : TRUE) \cup (IF Fits(PRIV, c) THEN {c[2]} ELSE {})}]_vars_
Extends_ == [][(more' # more /\ more # <<>> /\ Whole(more) /\ ~Acct) =>
                 /\ \A n \in {"list_name", "level", "group"} : At(val', n) = At(val, n)
                 /\ At(val', "methods") = {Append(x, more'[Len(more')]) : x \in At(val, "methods")}]_vars_
Named == IsAaa => \A x \in At(val, "list_name") : x # "" /\ x # "group"
Emitted == Whole(more) => PrintT("GEN " \o ToJson(<<Glue(head, more), seq, val>>))
=============================================================================
