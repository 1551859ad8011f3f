--------------------------------- MODULE HexMC ---------------------------------
(***************************************************************************)
(* C24: hex texts of up to Longest symbols of every class.                 *)
(***************************************************************************)
EXTENDS Hex, Json, TLC

CONSTANTS Symbols, Longest      \* bytes
VARIABLE t
Init == t = <<>>
Next == Len(t) < Longest /\ \E b \in Symbols : t' = Append(t, b)
Spec == Init /\ [][Next]_t
-----------------------------------------------------------------------------
Lower(b) == IF b >= 65 /\ b <= 70 THEN b + 32 ELSE b
Good == FirstForeign(t) = -1
\* what is decoded is encoded as the digits it had, in lower case (but for a surplus one)
Inverse == Good => LET d == Digits(t) IN HexEncode(HexDecode(t)) = [i \in 1..(2 * (Len(d) \div 2)) |-> Lower(d[i])]
\* decoding an encoding is the identity
Lossless == HexDecode(HexEncode(t)) = t /\ FirstForeign(HexEncode(t)) = -1 /\ Len(HexEncode(t)) = 2 * Len(t)
\* blanks do not matter
Blanks == Good => \A i \in 1..Len(t) : t[i] \in Blank => HexDecode(SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))) = HexDecode(t)
\* a foreign symbol is found where it is first
Foreign == ~Good => LET k == FirstForeign(t) + 1 IN NibbleOf(t[k]) = -1 /\ t[k] \notin Blank /\ \A j \in 1..(k - 1) : NibbleOf(t[j]) # -1 \/ t[j] \in Blank
Emit == PrintT("EDGE " \o ToJson([t |-> HexOf(t), ok |-> Good]))
=============================================================================
