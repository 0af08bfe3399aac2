------------------------------ MODULE ConfTree ------------------------------
(* What a parsed configuration is.  A configuration is a sequence of lines; the
   tree over it is a function of the text alone:
     T = [n, txt, ind, com, par, kids]
   txt[i] the characters of line i, ind[i] its indentation, com[i] whether it is
   a comment, par[i] its parent's index (i itself for a root), kids[i] the
   ascending sequence of its children.  Lines are numbered from 1 here (the
   implementation counts from 0).

   Two definitions of parenthood are given: the declarative one (IndentParent)
   and the incremental algorithm the parser runs line by line (ParserStep in
   MCParse), which TLC shows to agree. *)
EXTENDS Rx

-----------------------------------------------------------------------------
(* lines *)
IsComment(t, cd) == LET k == NonWs(t) IN k # {} /\ t[MinOf(k)] \in cd
IsConfigLine(t, cd) == ~IsBlank(t) /\ ~IsComment(t, cd)

-----------------------------------------------------------------------------
(* indentation parenthood: ind, com, cfgl are functions over 1..n; gone are the
   blank lines that are dropped: they are not the line above a comment *)
LineAbove(i, gone) == MaxOf({0} \cup {j \in 1..(i - 1) : j \notin gone})
IndentParent(i, ind, com, cfgl, gone) ==
  IF ind[i] = 0 THEN i
  ELSE IF com[i] /\ LineAbove(i, gone) > 0 /\ ind[LineAbove(i, gone)] > ind[i] THEN i
  ELSE LET S == {j \in 1..(i - 1) : ind[j] < ind[i] /\ cfgl[j]} IN
       IF S = {} THEN i ELSE MaxOf(S)

-----------------------------------------------------------------------------
(* banners: "[set ]banner <type> <delimiter>text" *)
BannerTypes == {Chars("login"), Chars("motd"), Chars("incoming"), Chars("exec"), Chars("telnet"), Chars("lcd")}
SkipSet(t) == \* position after any "set " prefixes
  LET RECURSIVE go(_)
      go(j) == IF StartsAt(t, j, Chars("set")) /\ j + 3 <= Len(t) /\ t[j + 3] \in WS
               THEN LET S == {m \in (j + 3)..Len(t) : t[m] \notin WS} IN IF S = {} THEN j ELSE go(MinOf(S))
               ELSE j
  IN go(1)
(* delimiter character of a multi-line banner starting on t, or NONE *)
BannerDelim(t) ==
  LET j == SkipSet(t) IN
  IF ~StartsAt(t, j, Chars("banner")) THEN NONE
  ELSE LET w == MinOf({m \in (j + 6)..(Len(t) + 1) : m = Len(t) + 1 \/ t[m] \notin WS}) IN
       IF w > Len(t) \/ w # j + 7 THEN NONE         \* exactly one blank before the banner type
       ELSE IF \A b \in BannerTypes : ~StartsAt(t, w, b) THEN NONE
       ELSE LET e == MinOf({m \in w..(Len(t) + 1) : m = Len(t) + 1 \/ t[m] \notin WORD})
                d == MinOf({m \in e..(Len(t) + 1) : m = Len(t) + 1 \/ t[m] \notin WS})
            IN IF e > Len(t) \/ t[e] \notin WS \/ d > Len(t) THEN NONE
               ELSE IF CountChar(SubSeq(t, d, Len(t)), t[d]) > 1 THEN NONE     \* closes on its own line
               ELSE t[d]
(* last line of the banner body (the line holding the delimiter, or the end) *)
BannerEnd(i, d, txt, n) ==
  LET S == {j \in (i + 1)..n : \E k \in 1..Len(txt[j]) : txt[j][k] = d} IN IF S = {} THEN n ELSE MinOf(S)
MacroStart(t) == StartsWith(t, Chars("macro name "))
MacroEnd(i, txt, n) ==
  LET S == {j \in (i + 1)..n : txt[j] = <<"@">>} IN IF S = {} THEN n ELSE MinOf(S)

(* owner of line j through banners and macros (0: none).  Later commands win,
   macros after banners, as the parser marks them in that order. *)
BannerOwner(j, txt, n) ==
  LET S == {i \in 1..(j - 1) : BannerDelim(txt[i]) # NONE /\ j <= BannerEnd(i, BannerDelim(txt[i]), txt, n)}
  IN IF S = {} THEN 0 ELSE MaxOf(S)
MacroOwner(j, raw, txt, n) ==
  LET S == {i \in 1..(j - 1) : MacroStart(raw[i]) /\ j <= MacroEnd(i, txt, n)} IN IF S = {} THEN 0 ELSE MaxOf(S)

(* closing braces: a line starting with "}" belongs to the innermost line ending in "{"
   that is still open; an unmatched one is an ordinary line *)
BraceOwners(txt, n) ==
  LET RECURSIVE go(_, _, _)
      go(i, open, acc) ==
        IF i > n THEN acc
        ELSE LET t == txt[i]  s == Strip(t) IN
             IF t # <<>> /\ t[Len(t)] = "{" THEN go(i + 1, <<i>> \o open, Append(acc, 0))
             ELSE IF s # <<>> /\ s[1] = "}" /\ open # <<>> THEN go(i + 1, Tail(open), Append(acc, Head(open)))
             ELSE go(i + 1, open, Append(acc, 0))
  IN go(1, <<>>, <<>>)

-----------------------------------------------------------------------------
(* options: [cd |-> set of comment characters, ign |-> ignore_blank_lines,
             fac |-> factory, syn |-> syntax]                               *)

(* all lines that reach the tree builder are numbered first, then blank ones are
   dropped (ignore_blank_lines) unless a banner or macro body protects them *)
FullTree(raw, o) ==
  LET n == Len(raw)
      txt == [i \in 1..n |-> RStrip(raw[i])]
      ind == [i \in 1..n |-> IndentOf(txt[i])]
      com == [i \in 1..n |-> IsComment(txt[i], o.cd)]
      cfgl == [i \in 1..n |-> IsConfigLine(txt[i], o.cd)]
      bo == [i \in 1..n |-> BannerOwner(i, txt, n)]
      mo == [i \in 1..n |-> IF o.syn = "ios" THEN MacroOwner(i, raw, txt, n) ELSE 0]
      own == [i \in 1..n |-> IF mo[i] # 0 THEN mo[i] ELSE bo[i]]
      br == BraceOwners(txt, n)
      (* the line closing a banner is not itself protected, but it is never blank *)
      keep == {i \in 1..n : ~o.ign \/ ~IsBlank(txt[i]) \/ own[i] # 0}
      par == [i \in 1..n |-> IF own[i] # 0 THEN own[i]
                             ELSE IF br[i] # 0 THEN br[i]
                             ELSE IndentParent(i, ind, com, cfgl, (1..n) \ keep)]
  IN [n |-> n, txt |-> txt, ind |-> ind, com |-> com, par |-> par, own |-> own, keep |-> keep]

Tree(raw, o) ==
  LET f == FullTree(raw, o)
      ks == SortSet(f.keep)
      n == Len(ks)
      rank == [i \in f.keep |-> Cardinality({j \in f.keep : j <= i})]
      par == [i \in 1..n |-> IF f.par[ks[i]] \in f.keep THEN rank[f.par[ks[i]]] ELSE i]
  IN [n |-> n,
      txt |-> [i \in 1..n |-> f.txt[ks[i]]],
      ind |-> [i \in 1..n |-> f.ind[ks[i]]],
      com |-> [i \in 1..n |-> f.com[ks[i]]],
      par |-> par,
      own |-> [i \in 1..n |-> IF f.own[ks[i]] # 0 THEN rank[f.own[ks[i]]] ELSE 0],
      kids |-> [i \in 1..n |-> SortSet({j \in 1..n : j # i /\ par[j] = i})]]

(* which raw lines reach the tree builder: list input in the default mode drops
   empty strings; a file is split at newlines, runs of them in the default mode *)
ListLines(lines, o) ==
  IF o.ign /\ ~o.fac THEN SelectSeq(lines, LAMBDA s : s # <<>>) ELSE lines

Parse(lines, o) == Tree(ListLines(lines, o), o)

-----------------------------------------------------------------------------
(* derived relations; X \in 1..T.n *)
RECURSIVE Desc(_, _)
Desc(T, i) == LET K == Rng(T.kids[i]) IN K \cup UNION {Desc(T, j) : j \in K}
RECURSIVE Anc(_, _)
Anc(T, i) == IF T.par[i] = i THEN {} ELSE {T.par[i]} \cup Anc(T, T.par[i])
AllKids(T, i) == SortSet(Desc(T, i))
AllPars(T, i) == SortSet(Anc(T, i))
Lineage(T, i) == SortSet(Anc(T, i) \cup {i} \cup Desc(T, i))
Geneology(T, i) == AllPars(T, i) \o <<i>>
Siblings(T, i) == SelectSeq(T.kids[T.par[i]], LAMBDA j : T.ind[j] = T.ind[i])
Endpoint(T, i) == IF T.kids[i] = <<>> THEN i ELSE MaxOf(Desc(T, i))
IsRoot(T, i) == T.par[i] = i

Texts(T, s) == [k \in 1..Len(s) |-> Str(T.txt[s[k]])]
AllText(T) == [i \in 1..T.n |-> Str(T.txt[i])]
Nums(s) == [k \in 1..Len(s) |-> s[k] - 1]        \* implementation line numbers

(* well-formedness, used as an invariant of every tree the specification produces *)
WellFormed(T) ==
  /\ \A i \in 1..T.n : T.par[i] <= i
  /\ \A i, j \in 1..T.n : (i # j /\ T.par[j] = i) <=> j \in Rng(T.kids[i])
  /\ \A i \in 1..T.n : \A k \in 1..(Len(T.kids[i]) - 1) : T.kids[i][k] < T.kids[i][k + 1]
=============================================================================
