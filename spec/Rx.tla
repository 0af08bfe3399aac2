--------------------------------- MODULE Rx ---------------------------------
(* The fragment of regular expressions the checks use, with Python's ordered
   (leftmost, greedy, backtracking) semantics.  A pattern is a record
     [src |-> "source text", ic |-> ignore case?, ng |-> number of groups,
      alts |-> <<alternative, ...>>]           (alternation at top level only)
   and an alternative is a sequence of atoms
     [k |-> "c", s |-> chars]                  literal characters
     [k |-> "r", cls |-> class, lo |-> n, hi |-> m]   greedy repetition (hi = -1: no limit)
     [k |-> "^"], [k |-> "$"]                  anchors
     [k |-> "(", n |-> g], [k |-> ")", n |-> g]       capture group g           *)
EXTENDS Text

NONE == "~None~"

InClass(ch, cls) ==
  CASE cls = "S" -> ch \notin WS
    [] cls = "s" -> ch \in WS
    [] cls = "d" -> ch \in DIGITS
    [] cls = "D" -> ch \notin DIGITS
    [] cls = "w" -> ch \in WORD
    [] cls = "." -> ch # "\n"
    [] OTHER     -> \E i \in 2..Len(cls) : SubSeq(cls, i, i) = ch     \* "[abc" : any of a b c

NoMatch == [ok |-> FALSE, end |-> 0, caps |-> <<>>]

RECURSIVE MatchAtoms(_, _, _, _, _), TryCount(_, _, _, _, _, _)
MatchAtoms(p, i, t, j, caps) ==
  IF i > Len(p) THEN [ok |-> TRUE, end |-> j, caps |-> caps]
  ELSE LET a == p[i] IN
    CASE a.k = "c" -> IF StartsAt(t, j, a.s) THEN MatchAtoms(p, i + 1, t, j + Len(a.s), caps) ELSE NoMatch
      [] a.k = "^" -> IF j = 1 THEN MatchAtoms(p, i + 1, t, j, caps) ELSE NoMatch
      [] a.k = "$" -> IF j = Len(t) + 1 THEN MatchAtoms(p, i + 1, t, j, caps) ELSE NoMatch
      [] a.k = "(" -> MatchAtoms(p, i + 1, t, j, [caps EXCEPT ![a.n] = <<j, 0>>])
      [] a.k = ")" -> MatchAtoms(p, i + 1, t, j, [caps EXCEPT ![a.n] = <<@[1], j>>])
      [] OTHER ->
           LET stop == {m \in j..Len(t) : ~InClass(t[m], a.cls)}
               run == IF stop = {} THEN Len(t) - j + 1 ELSE MinOf(stop) - j
               top == IF a.hi >= 0 /\ a.hi < run THEN a.hi ELSE run
           IN TryCount(p, i, t, j, caps, top)
TryCount(p, i, t, j, caps, n) ==
  IF n < p[i].lo THEN NoMatch
  ELSE LET r == MatchAtoms(p, i + 1, t, j + n, caps) IN
       IF r.ok THEN r ELSE TryCount(p, i, t, j, caps, n - 1)

RECURSIVE TryAlts(_, _, _, _, _)
TryAlts(alts, k, t, j, caps) ==
  IF k > Len(alts) THEN NoMatch
  ELSE LET r == MatchAtoms(alts[k], 1, t, j, caps) IN IF r.ok THEN r ELSE TryAlts(alts, k + 1, t, j, caps)

LowAtom(a) == IF a.k = "c" THEN [a EXCEPT !.s = Low(@)]
              ELSE IF a.k = "r" /\ Len(a.cls) > 1 THEN [a EXCEPT !.cls = Str(Low(Chars(@)))] ELSE a
LowAlts(alts) == [x \in 1..Len(alts) |-> [y \in 1..Len(alts[x]) |-> LowAtom(alts[x][y])]]

(* re.search from position j0: [ok, start, end, caps] (positions 1-based, end exclusive) *)
Search(p, t0, j0) ==
  LET t == IF p.ic THEN Low(t0) ELSE t0
      alts == IF p.ic THEN LowAlts(p.alts) ELSE p.alts
      caps0 == [g \in 1..p.ng |-> <<0, 0>>]
      RECURSIVE go(_)
      go(j) == IF j > Len(t) + 1 THEN [ok |-> FALSE, start |-> 0, end |-> 0, caps |-> caps0]
               ELSE LET r == TryAlts(alts, 1, t, j, caps0) IN
                    IF r.ok THEN [ok |-> TRUE, start |-> j, end |-> r.end, caps |-> r.caps] ELSE go(j + 1)
  IN go(j0)

Matches(p, t) == Search(p, t, 1).ok

(* group g of a match m on text t, as a string; group 0 is the whole match; NONE if it took no part *)
Group(m, t, g) ==
  IF g = 0 THEN Str(SubSeq(t, m.start, m.end - 1))
  ELSE IF m.caps[g][1] = 0 \/ m.caps[g][2] = 0 THEN NONE
  ELSE Str(SubSeq(t, m.caps[g][1], m.caps[g][2] - 1))

(* re.sub; the replacement is a sequence of [k |-> "lit", s |-> chars] and [k |-> "g", n |-> group].
   Patterns used for substitution never match the empty string. *)
Expand(repl, m, t) ==
  Concat([i \in 1..Len(repl) |->
     IF repl[i].k = "lit" THEN repl[i].s
     ELSE IF m.caps[repl[i].n][2] = 0 THEN <<>>
     ELSE SubSeq(t, m.caps[repl[i].n][1], m.caps[repl[i].n][2] - 1)])
Sub(p, repl, t) ==
  LET RECURSIVE go(_)
      go(j) == LET m == Search(p, t, j) IN
               IF ~m.ok THEN SubSeq(t, j, Len(t))
               ELSE SubSeq(t, j, m.start - 1) \o Expand(repl, m, t) \o go(m.end)
  IN go(1)

(* re.compile('^%s$' % source): the anchors bind to the outer alternatives only *)
ExactOf(p) ==
  [p EXCEPT !.alts =
     IF Len(p.alts) = 1 THEN << <<[k |-> "^"]>> \o p.alts[1] \o <<[k |-> "$"]>> >>
     ELSE [i \in 1..Len(p.alts) |->
             IF i = 1 THEN <<[k |-> "^"]>> \o p.alts[i]
             ELSE IF i = Len(p.alts) THEN p.alts[i] \o <<[k |-> "$"]>> ELSE p.alts[i]]]

(* every run of blanks in the expression matches any non-empty run of whitespace *)
LooseLit(s) ==
  LET RECURSIVE go(_)
      go(j) ==
        IF j > Len(s) THEN <<>>
        ELSE LET stop == {m \in j..Len(s) : (s[m] \in WS) # (s[j] \in WS)}
                 e == IF stop = {} THEN Len(s) + 1 ELSE MinOf(stop)
             IN (IF s[j] \in WS THEN <<[k |-> "r", cls |-> "s", lo |-> 1, hi |-> -1]>>
                 ELSE <<[k |-> "c", s |-> SubSeq(s, j, e - 1)]>>) \o go(e)
  IN go(1)
SpaceTolerant(p) ==
  [p EXCEPT !.alts = [i \in 1..Len(p.alts) |->
     Concat([a \in 1..Len(p.alts[i]) |->
        IF p.alts[i][a].k = "c" THEN LooseLit(p.alts[i][a].s) ELSE <<p.alts[i][a]>>])]]

(* re.escape: the source text taken literally *)
Escaped(p) == [p EXCEPT !.alts = << <<[k |-> "c", s |-> Chars(p.src)]>> >>, !.ng = 0]

LitPat(s) == [src |-> s, ic |-> FALSE, ng |-> 0, alts |-> << <<[k |-> "c", s |-> Chars(s)]>> >>]
=============================================================================
