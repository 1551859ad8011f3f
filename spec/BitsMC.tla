-------------------------------- MODULE BitsMC --------------------------------
(***************************************************************************)
(* C17: the writer and the reader as machines that hold whole bytes and an *)
(* offset into the last of them, as the code does, against the plain       *)
(* concatenation of bits in Bits11.                                        *)
(***************************************************************************)
EXTENDS Bits11, Json, TLC

CONSTANTS Values, Longest

VARIABLES vs,      \* values written so far
          buf,     \* whole bytes
          off,     \* bits in use of the last byte (0: all of it)
          pos      \* bits read back; -1 while writing
vars == <<vs, buf, off, pos>>

\* three machine steps: fill the last byte, then one whole byte if there is as much, then the rest
PutBits(b, o, v) ==
  LET free == IF o = 0 THEN 0 ELSE 8 - o
      top == v \div (2 ^ (11 - free))
      b1 == IF free = 0 THEN b ELSE [b EXCEPT ![Len(b)] = @ + top]
      r == 11 - free                                   \* bits left: 4..11
      x == v % (2 ^ r)
      b2 == IF r >= 8 THEN Append(b1, x \div (2 ^ (r - 8))) ELSE b1
      r2 == IF r >= 8 THEN r - 8 ELSE r
      x2 == x % (2 ^ r2)
  IN [b |-> IF r2 = 0 THEN b2 ELSE Append(b2, x2 * (2 ^ (8 - r2))), o |-> r2]

Init == vs = <<>> /\ buf = <<>> /\ off = 0 /\ pos = -1
Write == \E v \in Values :
  /\ pos = -1 /\ Len(vs) < Longest
  /\ vs' = Append(vs, v)
  /\ LET m == PutBits(buf, off, v) IN buf' = m.b /\ off' = m.o
  /\ UNCHANGED pos
Turn == pos = -1 /\ pos' = 0 /\ UNCHANGED <<vs, buf, off>>
Left == (8 * Len(buf) - pos) \div 11
Read == pos >= 0 /\ Left > 0 /\ pos' = pos + 11 /\ UNCHANGED <<vs, buf, off>>
Next == Write \/ Turn \/ Read
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the machine writes the concatenation, zero padded
Concatenation == pos = -1 => buf = Pack11(vs)
\* as many values are announced as were written and not yet read
Announced == pos >= 0 => Left = Len(vs) - pos \div 11
\* and the next one read is the next one written
Lossless == pos >= 0 /\ Left > 0 => NumOfBits(SubSeq([k \in 1..(8 * Len(buf)) |-> (buf[((k - 1) \div 8) + 1] \div (2 ^ (7 - ((k - 1) % 8)))) % 2], pos + 1, pos + 11)) = vs[pos \div 11 + 1]
Whole == pos >= 0 => Unpack11(Pack11Hex(vs), Len(vs)) = vs
Emit == (pos = 0 /\ Len(vs) > 0) => PrintT("EDGE " \o ToJson([v |-> vs, b |-> HexOf(buf)]))
=============================================================================
