---------------------------- MODULE CheckSeven ------------------------------
(* Decryptions recorded from the implementation (the code points of the result). *)
EXTENDS TypeSeven, Judge
VARIABLES c, done
JudgeCase(q) ==
  IF q.obs.exc # "" THEN Holds("decrypt-succeeds", FALSE, q.obs)
  ELSE Eq("plaintext", Decode(Chars(q.e)), q.obs.p)
       \o (IF q.kind = "seven" /\ q.p # <<-1>> THEN Eq("decryption-inverts-encryption", q.p, q.obs.p) ELSE <<>>)
Init == c \in 1..NCases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Report(c, 1, JudgeCase(Cases[c]))
=============================================================================
