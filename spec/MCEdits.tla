------------------------------- MODULE MCEdits ------------------------------
(* Every small configuration under every short sequence of operations (read
   from ops.json): laws of the editing operations, and the histories themselves
   for replay on the implementation. *)
EXTENDS Edits, Json
CONSTANTS NLines, MaxIndent, Bodies, MaxOps, Emit
VARIABLES raw, st, prev, hist
vars == <<raw, st, prev, hist>>
Ops == JsonDeserialize("ops.json")
Opt == [cd |-> {"!"}, ign |-> TRUE, fac |-> FALSE, syn |-> "ios"]
LineSet == {Spaces(k) \o Chars(b) : k \in 0..MaxIndent, b \in Bodies}
Init == \E f \in [1..NLines -> LineSet] : raw = f /\ st = Load(Parse(raw, Opt)) /\ prev = st /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E k \in 1..Len(Ops) : hist' = Append(hist, k) /\ st' = Apply(st, Ops[k], Opt).st /\ prev' = st /\ raw' = raw

Op == Ops[hist[Len(hist)]]
Old == {prev.seq[i] : i \in 1..Len(prev.seq)}
OldIn(s) == SelectSeq(s, LAMBDA x : x \in Old)
(* families stay consistent whatever happens between commits *)
Consistent ==
  \A i \in 1..Len(st.seq) : LET id == st.seq[i] IN
     /\ (st.par[id] # id => \E k \in 1..Len(st.kids[st.par[id]]) : st.kids[st.par[id]][k] = id)
     /\ \A k \in 1..Len(st.kids[id]) : Live(st, st.kids[id][k]) /\ st.par[st.kids[id][k]] = id
     /\ Live(st, st.par[id])
NonAtomic == hist # <<>> /\ Op.m \notin {"commit", "append_line", "del", "reverse"} /\ ~Op.atomic
(* insertions keep the old lines, in order, and add the same new text everywhere *)
InsertLaw == NonAtomic /\ Op.m \in {"insert_before", "insert_after", "obj_insert_before", "obj_insert_after", "append_to_family", "insert_after_child", "cl_insert", "prepend_line"} =>
  /\ OldIn(st.seq) = prev.seq
  /\ \A id \in Old : st.txt[id] = prev.txt[id]
(* deletions keep a subsequence of the old lines, untouched, and never split a family *)
DeleteLaw == NonAtomic /\ Op.m \in {"obj_delete", "delete_lines", "delete_children_matching"} =>
  /\ SelectSeq(prev.seq, LAMBDA x : \E i \in 1..Len(st.seq) : st.seq[i] = x) = st.seq
  /\ \A i \in 1..Len(st.seq) : st.txt[st.seq[i]] = prev.txt[st.seq[i]]
  /\ Op.m = "delete_lines" => \A i \in 1..Len(st.seq) : ~Matches(LineRx(Pat(Op.p), Op.exact, Op.ws), st.txt[st.seq[i]])
(* replacements keep number and order, except for lines that become blank *)
ReplaceLaw == NonAtomic /\ Op.m \in {"replace_lines", "replace_children", "replace_all_children", "re_sub"} =>
  /\ SelectSeq(prev.seq, LAMBDA x : \E i \in 1..Len(st.seq) : st.seq[i] = x) = st.seq
  /\ \A i \in 1..Len(st.seq) : ~IsBlank(st.txt[st.seq[i]])
CommitLaw == LET c == Commit(st, Opt) IN Commit(c, Opt) = c /\ TextOf(c) = SelectSeq(TextOf(st), LAMBDA t : ~IsBlank(t))
CommitFresh == LET t == CommitTree(st, Opt) IN t = Parse(TextOf(st), Opt)
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("GEN " \o ToJson([lines |-> [i \in 1..Len(raw) |-> Str(raw[i])], hist |-> hist]))
=============================================================================
