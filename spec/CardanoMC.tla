------------------------------- MODULE CardanoMC -------------------------------
(***************************************************************************)
(* C09, C11: extended Ed25519 keys derived step by step, and the laws they *)
(* obey: public derivation for soft children, bits that keep a key usable, *)
(* RFC 8032 verification of its signatures.                                *)
(***************************************************************************)
EXTENDS Keys, Json, TLC, IOUtils

CONSTANTS Signing
Seeds == {Sub(IOEnv.SEEDS, 64 * i, 64 * i + 64) : i \in 0..(BLen(IOEnv.SEEDS) \div 64 - 1)}      \* one after the other
Levels == <<{P44, "00000000"}, {ADA, "00000717"}, {"80000000", "80000001", "ffffffff"}, {"00000000", "00000001"}, {"00000000", "00000001", "7fffffff"}>>

VARIABLES seed, path, x
vars == <<seed, path, x>>
Init == seed \in Seeds /\ path = <<>> /\ x = Root(seed)
Next == /\ Len(path) < Len(Levels)
        /\ \E i \in Levels[Len(path) + 1] : x' = CChild(x, i) /\ path' = Append(path, i)
        /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

Zero32c == HexOf([i \in 1..32 |-> 0])
LMinus1 == EdMulAdd(Zero32c, Zero32c, HexOf(<<236, 211, 245, 92, 26, 99, 18, 88, 214, 156, 247, 162, 222, 249, 222, 20>> \o [i \in 1..15 |-> 0] \o <<16>>))
Msg == "6d" \o Sub(x, 0, 3)
-----------------------------------------------------------------------------
\* A + 8 zL B, for soft indices, from the public key alone: s*B - (L-1)*A = s*B + A
PublicChild(y, i) ==
  LET z == HMAC512(CC(y), "02" \o Point(y) \o LE32(i))
      c == HMAC512(CC(y), "03" \o Point(y) \o LE32(i))
  IN EdCombine(EdReduce(LeAdd28Mul8(Zero32c, Sub(z, 0, 32))), LMinus1, Point(y)) \o Sub(c, 32, 64)
PublicDerivation == \A i \in {"00000000", "7fffffff", "00000100"} : PubKey(CChild(x, i)) = PublicChild(x, i)
Hardened == PubKey(CChild(x, "80000000")) # PublicChild(x, "80000000")
Again == x = CDerive(Root(seed), path)
\* the lowest bits stay clear; of the root, the highest are 010
Clamped == ~LowBad(x) /\ (path = <<>> => RootFaults(x) = {} /\ CC(x) = Sub(seed, 32, 64))
Sized == BLen(x) = 96 /\ BLen(PubKey(x)) = 64
Siblings == LET I == {"00000000", "00000001", "7fffffff", "80000000", "ffffffff"} IN Cardinality({CChild(x, i) : i \in I}) = Cardinality(I)
\* little-endian indices: 1 and 2^24 are not mixed up
Endian == CChild(x, "00000001") # CChild(x, "01000000")
Signs == Signing => LET g == CSign(x, Msg)  p == Point(x)  b == ByteAt(g, 0)
         IN /\ CVerify(p, Msg, g)
            /\ EdBelowL(Sub(g, 32, 64))
            /\ ~CVerify(p, Msg \o "00", g)
            /\ ~CVerify(p, Msg, Sub(g, 0, 32) \o EdPlusL(Sub(g, 32, 64)))
            /\ ~CVerify(p, Msg, Hex1(IF b % 2 = 0 THEN b + 1 ELSE b - 1) \o Sub(g, 1, 64))
            /\ ~CVerify(Point(CChild(x, "00000005")), Msg, g)
Emit == PrintT("EDGE " \o ToJson([seed |-> seed, path |-> path, m |-> Msg]))
=============================================================================
