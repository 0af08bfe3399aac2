------------------------------ MODULE MCBanner ------------------------------
(* Every short configuration over a small alphabet of banner, macro, text,
   delimiter and blank lines, with the ownership laws. *)
EXTENDS ConfTree, Json
CONSTANTS MaxLines, Bodies, Emit, Ign
VARIABLES raw
Opt == [cd |-> {"!"}, ign |-> Ign, fac |-> TRUE, syn |-> "ios"]
Init == raw = <<>>
Next == Len(raw) < MaxLines /\ \E b \in Bodies : raw' = Append(raw, Chars(b))

Starts(t, i) == BannerDelim(t[i]) # NONE \/ MacroStart(t[i])
Laws ==
  LET T == Parse(raw, Opt) IN
  /\ WellFormed(T)
  (* no line is owned by two commands; a banner's body is the block that follows it *)
  /\ \A i \in 1..T.n : \A j \in Rng(T.kids[i]) : T.own[j] = i =>
        \A k \in (i + 1)..j : T.own[k] # 0
  (* bodies end at the first terminator *)
  /\ \A j \in 1..T.n : T.own[j] # 0 /\ BannerDelim(T.txt[T.own[j]]) # NONE =>
        \A k \in (T.own[j] + 1)..(j - 1) : ~\E x \in 1..Len(T.txt[k]) : T.txt[k][x] = BannerDelim(T.txt[T.own[j]])
  (* a protected line is never dropped: the number of body lines is that of the raw text *)
  /\ \A i \in 1..T.n : BannerDelim(T.txt[i]) # NONE /\ (\A k \in 1..T.n : k # i => ~Starts(T.txt, k)) =>
        LET e == BannerEnd(i, BannerDelim(T.txt[i]), T.txt, T.n) IN \A k \in (i + 1)..e : T.par[k] = i
Emitted == (Emit /\ Len(raw) = MaxLines) => PrintT("GEN " \o ToJson([i \in 1..Len(raw) |-> Str(raw[i])]))
=============================================================================
