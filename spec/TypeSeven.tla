------------------------------ MODULE TypeSeven -----------------------------
(* Cisco type-7 passwords: a two-digit decimal seed, then the plaintext's bytes,
   each xor'ed with the key byte at (seed + position) modulo the key's length and
   written as two hexadecimal digits.  A plaintext is a sequence of byte values. *)
EXTENDS Text

KeyText == Chars("dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87")
CodeOf(ch) == CASE ch \in DIGITS -> 48 + DigitVal[ch]
                [] ch \in UPPER -> 64 + CHOOSE i \in 1..26 : UPPERSEQ[i] = ch
                [] ch \in LOWER -> 96 + CHOOSE i \in 1..26 : LOWERSEQ[i] = ch
                [] ch = ";" -> 59 [] ch = "," -> 44 [] ch = "." -> 46
KEY == [i \in 1..Len(KeyText) |-> CodeOf(KeyText[i])]
RECURSIVE Xor(_, _)
Xor(x, y) == IF x = 0 /\ y = 0 THEN 0 ELSE ((x + y) % 2) + 2 * Xor(x \div 2, y \div 2)
KeyAt(seed, i) == KEY[((seed + i - 1) % Len(KEY)) + 1]
Hex2(n) == <<HexDigits[(n \div 16) + 1], HexDigits[(n % 16) + 1]>>
UnHex2(t) == 16 * HexVal[LowC(t[1])] + HexVal[LowC(t[2])]
TwoDigits(n) == IF n < 10 THEN <<"0">> \o NatChars(n) ELSE NatChars(n)
RECURSIVE EncBytes(_, _, _)
EncBytes(s, p, i) == IF i > Len(p) THEN <<>> ELSE Hex2(Xor(p[i], KeyAt(s, i))) \o EncBytes(s, p, i + 1)
Encode(s, p) == TwoDigits(s) \o EncBytes(s, p, 1)

(* nothing is decrypted from an odd number of characters or without a decimal seed *)
Decode(e) == IF Len(e) < 2 \/ Len(e) % 2 = 1 \/ ~IsDigits(SubSeq(e, 1, 2)) THEN <<>>
             ELSE LET s == NatOf(SubSeq(e, 1, 2)) IN
                  [i \in 1..((Len(e) - 2) \div 2) |-> Xor(UnHex2(SubSeq(e, 2 * i + 1, 2 * i + 2)), KeyAt(s, i))]
UpperHex(e) == [i \in 1..Len(e) |-> IF e[i] \in {"a", "b", "c", "d", "e", "f"} THEN UPPERSEQ[CHOOSE k \in 1..6 : LOWERSEQ[k] = e[i]] ELSE e[i]]
=============================================================================
