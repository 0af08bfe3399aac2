------------------------------ MODULE MCSeven -------------------------------
(* Every seed and every short plaintext over Codes, grown byte by byte: decoding
   inverts encoding in both letter cases, different plaintexts have different
   encodings, and appending a byte appends two digits. *)
EXTENDS TypeSeven, Json
CONSTANTS MaxLen, Codes, Seeds
VARIABLES seed, p
vars == <<seed, p>>
Init == seed \in Seeds /\ p = <<>>
Next == Len(p) < MaxLen /\ \E x \in Codes : p' = Append(p, x) /\ seed' = seed
Inverse == Decode(Encode(seed, p)) = p /\ Decode(UpperHex(Encode(seed, p))) = p
Sized == Len(Encode(seed, p)) = 2 + 2 * Len(p)
Grows == [][SubSeq(Encode(seed', p'), 1, Len(Encode(seed, p))) = Encode(seed, p)]_vars
(* the key repeats *)
Periodic == seed + Len(KEY) < 100 => EncBytes(seed, p, 1) = EncBytes(seed + Len(KEY), p, 1)
Spec == Init /\ [][Next]_vars
Emitted == (Len(p) = MaxLen) => PrintT("GEN " \o ToJson(<<Str(Encode(seed, p)), p>>))
=============================================================================
