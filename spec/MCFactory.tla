----------------------------- MODULE MCFactory ------------------------------
(* Every line built from at most MaxWords words of Vocab, at two indentations:
   each syntax names exactly one of its classes; a longer last word, or words
   after the ones that decide, keep the class of a specialised line. *)
EXTENDS Factory, Json
CONSTANTS MaxWords, Vocab
VARIABLES ind, ws, cl
vars == <<ind, ws, cl>>
SYNS == {"ios", "nxos", "iosxr", "asa"}
LineOf(k, w) == Spaces(k) \o JoinWith([i \in 1..Len(w) |-> Chars(w[i])], <<" ">>)
Classes(t) == [s \in SYNS |-> ClassOf(s, t)]
Init == ind \in {0, 1} /\ ws = <<>> /\ cl = Classes(<<>>)
Next == Len(ws) < MaxWords /\ \E w \in Vocab : ws' = Append(ws, w) /\ ind' = ind /\ cl' = Classes(LineOf(ind, ws'))
Own(syn, c) == LET p == CASE syn = "ios" -> "IOS" [] syn = "nxos" -> "NXOS" [] syn = "iosxr" -> "IOSXR" [] syn = "asa" -> "ASA" IN
               SubSeq(c, 1, Len(p)) = p
Sane == \A s \in SYNS : Own(s, cl[s])
(* nothing special below the margin but what the syntax says *)
Margin == ind = 1 => /\ cl["iosxr"] = "IOSXRCfgLine" /\ cl["asa"] = "ASACfgLine"
                     /\ cl["nxos"] \in {"NXOSCfgLine", "NXOSAaaConsoleAuthorizationLine", "NXOSIntfGlobal"}
Spec == Init /\ [][Next]_vars
(* more words never take the class of a line away *)
Keeps == [][\A s \in SYNS : cl[s] # PlainClass(s) => cl'[s] = cl[s]]_vars
Emitted == (Len(ws) >= 1) => PrintT("GEN " \o ToJson(<<Str(LineOf(ind, ws)), cl>>))
=============================================================================
