------------------------------ MODULE MCReads -------------------------------
(* A reader that remembers answers per configuration (as the library does with
   cached attributes) and forgets them when the text changes: every history of
   reading and editing two configurations is admitted by Reads.  With Forget =
   FALSE (a stale cache) it is not.  The histories are replayed on the library. *)
EXTENDS Reads, Json
CONSTANTS Confs, Texts, Questions, MaxSteps, Forget, Emit
VARIABLES text, cache, memo, good, hist
vars == <<text, cache, memo, good, hist>>
F(t, q) == <<"answer", t, q>>
NOTHING == <<"nothing">>
Init == /\ text \in [Confs -> Texts] /\ cache = [c \in Confs |-> [q \in Questions |-> NOTHING]]
        /\ memo = {} /\ good = TRUE /\ hist = <<>>
Read(c, q) ==
  LET a == IF cache[c][q] # NOTHING THEN cache[c][q] ELSE F(text[c], q)
      k == Key(text[c], "o", q) IN
  /\ cache' = [cache EXCEPT ![c][q] = a]
  /\ good' = (good /\ Agrees(memo, k, a)) /\ memo' = Learn(memo, k, a)
  /\ UNCHANGED text /\ hist' = Append(hist, [c |-> c, a |-> "ask", x |-> q])
Edit(c, t) ==
  /\ t # text[c] /\ text' = [text EXCEPT ![c] = t]
  /\ cache' = [cache EXCEPT ![c] = [q \in Questions |-> IF Forget THEN NOTHING ELSE @[q]]]
  /\ UNCHANGED <<memo, good>> /\ hist' = Append(hist, [c |-> c, a |-> "edit", x |-> 0])
Next == Len(hist) < MaxSteps /\ \E c \in Confs : (\E q \in Questions : Read(c, q)) \/ (\E t \in Texts : Edit(c, t))
(* what is remembered is what would be answered now *)
Fresh == \A c \in Confs, q \in Questions : cache[c][q] = NOTHING \/ cache[c][q] = F(text[c], q)
Admitted == good
Functional == \A m, n \in memo : m.key = n.key => m.ans = n.ans
Emitted == (Emit /\ Len(hist) = MaxSteps) => PrintT("GEN " \o ToJson([start |-> text[1] = text[2], hist |-> hist]))
=============================================================================
