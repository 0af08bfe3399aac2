------------------------------- MODULE Reads --------------------------------
(* Reading configurations.  Several configurations are alive at once; each holds
   a text and is read under its own options.  Whatever is asked about one - a
   search, an attribute of a line, a diff - is a fixed (here uninterpreted)
   function of the text, the options and the question: it does not depend on what
   was asked or edited before, nor on the other configurations, and asking leaves
   every text as it was.

   memo is what is known of that function: a set of [key, ans].  A history is
   admitted iff every answer agrees with what is known. *)
EXTENDS Naturals, Sequences, TLC, FiniteSets

Key(t, o, q) == <<t, o, q>>
Known(memo, k) == \E m \in memo : m.key = k
Answer(memo, k) == (CHOOSE m \in memo : m.key = k).ans
Agrees(memo, k, a) == Known(memo, k) => Answer(memo, k) = a
Learn(memo, k, a) == IF Known(memo, k) THEN memo ELSE memo \cup {[key |-> k, ans |-> a]}
=============================================================================
