----------------------------- MODULE MCCommands -----------------------------
(* Withdrawing twice gives the line back (up to white space), and the line withdrawn
   is at the same depth; resets only add lines, in front of what they reset. *)
EXTENDS Commands, Json, TLC
CONSTANTS Words_, MaxWords, MaxIndent, MaxResets
VARIABLES t, twice, cfg, count
Norm(x) == Pad(IndentOf(x)) \o Spaced(Words(x))
Start == <<Chars("interface A"), Chars(" shutdown"), Chars("line con 0"), Chars("interface B")>>
CanReset(x) == IndentOf(x) = 0 /\ Words(x)[1] # Chars("default")
Init == /\ t \in {Pad(i) \o Chars(w) : i \in 0..MaxIndent, w \in Words_} /\ twice = <<>> /\ cfg = Start /\ count = 0
Next == \/ /\ count = 0 /\ Len(Words(t)) < MaxWords /\ (\E w \in Words_, g \in 1..2 : t' = t \o Pad(g) \o Chars(w))
           /\ twice' = Uncfg(Uncfg(t')) /\ UNCHANGED <<cfg, count>>
        \/ /\ twice = <<>> /\ count < MaxResets /\ count' = count + 1 /\ (\E i \in 1..Len(cfg) : CanReset(cfg[i]) /\ cfg' = Reset(cfg, i))
           /\ UNCHANGED <<t, twice>>
Involution == (twice # <<>> /\ Words(t)[1] # Chars("no")) => Norm(twice) = Norm(t)
SameDepth == Words(t) # <<>> /\ Words(t) # <<Chars("no")>> => IndentOf(Uncfg(t)) = IndentOf(t)
Kept == SelectSeq(cfg, LAMBDA x : Words(x)[1] # Chars("default")) = Start
InFront == \A i \in 1..Len(cfg) : Words(cfg[i])[1] = Chars("default") => i < Len(cfg) /\ (cfg[i] = ResetText(cfg[i + 1]) \/ cfg[i] = cfg[i + 1])
Emitted == PrintT("GEN " \o ToJson(<<Str(t), Str(Uncfg(t))>>))
=============================================================================
