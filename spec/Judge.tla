------------------------------- MODULE Judge --------------------------------
(* Comparison of what the specification expects with what the implementation
   was observed to do.  Comparing JSON renderings makes the verdict total: an
   observation of an unexpected type is a mismatch, never an evaluation error. *)
EXTENDS Naturals, Sequences, TLC, Json

Cases == JsonDeserialize("cases.json")
NCases == Len(Cases)

Eq(clause, e, o) ==
  IF ToJson(e) = ToJson(o) THEN <<>>
  ELSE << [clause |-> clause, exp |-> ToJson(e), obs |-> ToJson(o)] >>
Holds(clause, b, o) ==
  IF b THEN <<>> ELSE << [clause |-> clause, exp |-> "TRUE", obs |-> ToJson(o)] >>
Report(c, l, bad) ==
  \A i \in 1..Len(bad) :
     PrintT("BAD " \o ToJson([case |-> c, step |-> l, clause |-> bad[i].clause,
                              exp |-> bad[i].exp, obs |-> bad[i].obs]))
=============================================================================
