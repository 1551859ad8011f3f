------------------------------- MODULE Bits11 -------------------------------
(* C17: packing sequences of 11-bit values into bytes. *)
EXTENDS Bytes

Bits11(v) == [k \in 1..11 |-> (v \div (2 ^ (11 - k))) % 2]
\* all bits of the values, in order
PackedBits(vs) == [k \in 1..(11 * Len(vs)) |-> Bits11(vs[((k - 1) \div 11) + 1])[((k - 1) % 11) + 1]]
PadLen(n) == (8 - (n % 8)) % 8
\* writing: the concatenated bits, zero padded to whole bytes
Pack11(vs) == LET b == PackedBits(vs) IN BytesOfBits(b \o ZeroBits(PadLen(Len(b))))
Pack11Hex(vs) == HexOf(Pack11(vs))
\* reading: whole 11-bit groups of a byte string
Count11(nbytes, nread) == (8 * nbytes - 11 * nread) \div 11
Read11(h, i) == NumOfBits([k \in 1..11 |-> BitAt(h, 11 * i + k - 1)])     \* i-th group from 0
Unpack11(h, n) == [i \in 1..n |-> Read11(h, i - 1)]
=============================================================================
