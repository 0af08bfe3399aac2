------------------------------- MODULE Source -------------------------------
(* From what the user hands over (a list of lines, or a file) to the tree. *)
EXTENDS Brace

Opts(q) == [cd |-> Rng(q.opts.cd), ign |-> q.opts.ign, fac |-> q.opts.fac, syn |-> q.opts.syn]
RawLines(q) == Map(q.lines, Chars)

(* a file is read as text: \r\n, \r and \n end a line; the default mode merges runs *)
FileLines(content, o) ==
  LET u == Chars(content)
      nl == [i \in 1..Len(u) |-> IF u[i] = "\r" THEN (IF i < Len(u) /\ u[i + 1] = "\n" THEN "skip" ELSE "\n") ELSE u[i]]
      v == SelectSeq(nl, LAMBDA ch : ch # "skip")
      parts0 == SplitChar(v, "\n")
      (* the newline that ends the last line starts no further line *)
      parts == IF parts0[Len(parts0)] = <<>> THEN SubSeq(parts0, 1, Len(parts0) - 1) ELSE parts0
  IN IF o.ign /\ ~o.fac THEN SelectSeq(parts, LAMBDA s : s # <<>>) ELSE parts

TreeOf(q) ==
  IF q.opts.syn = "junos" THEN (IF q.via = "file" THEN Tree(BraceConvert(FileLines(q.content, Opts(q))), Opts(q)) ELSE BraceParse(RawLines(q), Opts(q)))
  ELSE IF q.via = "file" THEN Tree(FileLines(q.content, Opts(q)), Opts(q)) ELSE Parse(RawLines(q), Opts(q))
(* what save_as writes *)
FileOf(txt) == Concat([i \in 1..Len(txt) |-> Append(txt[i], "\n")])
=============================================================================
