----------------------------- MODULE CheckReads -----------------------------
(* Histories of reading recorded from the library.  Every event names the
   configuration it concerns and carries the text of all configurations after it. *)
EXTENDS Reads, Judge
VARIABLES c, done
RECURSIVE Go(_, _, _, _)
Go(q, k, text, memo) ==
  IF k > Len(q.obs.events) THEN <<>>
  ELSE LET e == q.obs.events[k]  i == e.c  s == q.steps[k]
           others == \A j \in 1..Len(text) : j = i \/ text[j] = e.texts[j] IN
       IF s.a = "edit" \/ s.a = "fresh"
       THEN (IF ~others THEN << [clause |-> "an-edit-concerns-one-configuration", exp |-> "the others unchanged", obs |-> ToString(k)] >>
             ELSE Go(q, k + 1, e.texts, memo))
       ELSE LET key == Key(text[i], ToJson(q.confs[i].kw), ToJson(s.q)) IN
            IF e.texts # text THEN << [clause |-> "reading-changes-nothing:" \o s.q.t, exp |-> ToJson(text[i]), obs |-> ToJson(e.texts[i])] >>
            ELSE IF ~Agrees(memo, key, e.ans)
                 THEN << [clause |-> "same-answer:" \o s.q.t, exp |-> Answer(memo, key), obs |-> e.ans] >>
                 ELSE Go(q, k + 1, text, Learn(memo, key, e.ans))
JudgeCase(q) == IF "events" \notin DOMAIN q.obs THEN Eq("history-runs", "events", q.obs) ELSE Go(q, 1, q.obs.start, {})
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
