-------------------------------- MODULE Hex --------------------------------
(* C24: hexadecimal text codec of bip39::util::hex. Texts are hex of their UTF-8 bytes here too,   *)
(* so "digit" below means a byte of the text.                                                     *)
EXTENDS Bytes

Blank == {9, 10, 13, 32}
NibbleOf(b) == IF b >= 48 /\ b <= 57 THEN b - 48
               ELSE IF b >= 97 /\ b <= 102 THEN b - 87
               ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE -1
CharOf(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexEncode(bs) == [i \in 1..(2 * Len(bs)) |-> CharOf(IF i % 2 = 1 THEN bs[(i + 1) \div 2] \div 16 ELSE bs[i \div 2] % 16)]
\* first byte of the text that is neither a digit nor blank (0-based), or -1
FirstForeign(t) == IF \E i \in 1..Len(t) : NibbleOf(t[i]) = -1 /\ t[i] \notin Blank
                   THEN (CHOOSE i \in 1..Len(t) : NibbleOf(t[i]) = -1 /\ t[i] \notin Blank
                                   /\ \A j \in 1..(i - 1) : NibbleOf(t[j]) # -1 \/ t[j] \in Blank) - 1
                   ELSE -1
IsDigit(b) == NibbleOf(b) # -1
Digits(t) == SelectSeq(t, IsDigit)
\* the deliberate deviation: a surplus last digit is dropped
HexDecode(t) == LET d == Digits(t) IN [i \in 1..(Len(d) \div 2) |-> 16 * NibbleOf(d[2 * i - 1]) + NibbleOf(d[2 * i])]
=============================================================================
