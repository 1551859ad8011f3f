------------------------------- MODULE Bytes -------------------------------
(* Byte strings as lower-case hex text; 32-bit numbers as eight hex digits. *)
EXTENDS Prim, FiniteSets

BLen(h)      == Len(h) \div 2
Sub(h, i, j) == SubSeq(h, 2 * i + 1, 2 * j)          \* bytes i .. j-1, counted from 0

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
DigitVal == [c \in {HexDigit[i] : i \in 1..16} |-> CHOOSE i \in 0..15 : HexDigit[i + 1] = c]
Dig(h, i) == DigitVal[SubSeq(h, i, i)]               \* i-th hex digit, from 1
ByteAt(h, i) == 16 * Dig(h, 2 * i + 1) + Dig(h, 2 * i + 2)

IsHex(h) == \A i \in 1..Len(h) : SubSeq(h, i, i) \in DOMAIN DigitVal

Hex1(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
Hex2(x) == Hex1(x \div 256) \o Hex1(x % 256)          \* 16-bit number

\* hex text of a sequence of bytes, built by halving (keeps the recursion shallow)
RECURSIVE HexOf(_)
HexOf(bs) == IF Len(bs) = 0 THEN ""
             ELSE IF Len(bs) = 1 THEN Hex1(bs[1])
             ELSE LET m == Len(bs) \div 2 IN HexOf(SubSeq(bs, 1, m)) \o HexOf(SubSeq(bs, m + 1, Len(bs)))
BytesOf(h) == [i \in 1..BLen(h) |-> ByteAt(h, i - 1)]

\* bits, most significant first
BitsOfByte(b) == <<(b \div 128) % 2, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2, (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2>>
BitAt(h, k) == LET d == Dig(h, (k \div 4) + 1)  IN (d \div (2 ^ (3 - (k % 4)))) % 2      \* k-th bit from 0
BitsOf(h) == [k \in 1..(4 * Len(h)) |-> BitAt(h, k - 1)]
RECURSIVE NumOfBits(_)
NumOfBits(b) == IF Len(b) = 0 THEN 0 ELSE 2 * NumOfBits(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
ZeroBits(n) == [i \in 1..n |-> 0]
BytesOfBits(b) == [i \in 1..(Len(b) \div 8) |-> NumOfBits(SubSeq(b, 8 * i - 7, 8 * i))]

-----------------------------------------------------------------------------
\* 32-bit numbers
U32Zero == "00000000"
Hi16(x) == 256 * ByteAt(x, 0) + ByteAt(x, 1)
Lo16(x) == 256 * ByteAt(x, 2) + ByteAt(x, 3)
U32(hi, lo) == Hex2(hi) \o Hex2(lo)
IsHard(x) == Dig(x, 1) >= 8                           \* x >= 2^31
Harden(x) == HexDigit[((Dig(x, 1) + 8) % 16) + 1] \o SubSeq(x, 2, 8)    \* adds 2^31 to a soft number
Soften(x) == HexDigit[((Dig(x, 1) + 8) % 16) + 1] \o SubSeq(x, 2, 8)
LE32(x) == Sub(x, 3, 4) \o Sub(x, 2, 3) \o Sub(x, 1, 2) \o Sub(x, 0, 1)

Digit10 == <<"0","1","2","3","4","5","6","7","8","9">>
\* value of a sequence of decimal digits: [ok, hi, lo]; ok = FALSE when it needs more than 32 bits
RECURSIVE DecAcc(_, _, _, _)
DecAcc(ds, i, hi, lo) ==
  IF i > Len(ds) THEN [ok |-> TRUE, hi |-> hi, lo |-> lo]
  ELSE LET l == lo * 10 + ds[i]
           h == hi * 10 + l \div 65536
       IN IF h > 65535 THEN [ok |-> FALSE, hi |-> 0, lo |-> 0] ELSE DecAcc(ds, i + 1, h, l % 65536)
DecVal(ds) == DecAcc(ds, 1, 0, 0)
\* decimal text of a 32-bit number
RECURSIVE DecText(_, _)
DecText(hi, lo) ==
  LET q == hi \div 10
      t == (hi % 10) * 65536 + lo
  IN IF hi = 0 /\ lo < 10 THEN Digit10[lo + 1]
     ELSE DecText(q, t \div 10) \o Digit10[(t % 10) + 1]
U32Dec(x) == DecText(Hi16(x), Lo16(x))
ToDec(n) == DecText(n \div 65536, n % 65536)            \* of a natural number
=============================================================================
