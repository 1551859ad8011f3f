-------------------------------- MODULE Secp --------------------------------
(***************************************************************************)
(* BIP-32 private derivation over secp256k1, the 77-byte serialised form,  *)
(* RFC 6979 ECDSA over Keccak-256 with low s and a recovery id (C08, C11,  *)
(* C21).  An extended key is [k, c, d, fp, i]: key, chain code, depth,     *)
(* parent fingerprint and child index, all byte strings.                   *)
(***************************************************************************)
EXTENDS Bytes

Zero32 == "0000000000000000000000000000000000000000000000000000000000000000"
BelowN(k) == NAdd(k, Zero32) = k
ValidKey(k) == BelowN(k) /\ k # Zero32

Compress(p) == (IF ByteAt(p, 64) % 2 = 1 THEN "03" ELSE "02") \o Sub(p, 1, 33)
PubOf(x) == SecpMulG(x.k)
Fingerprint(x) == Sub(RIPEMD160(SHA256(Compress(PubOf(x)))), 0, 4)

\* "Bitcoin seed"
Master(seed) == LET h == HMAC512("426974636f696e2073656564", seed)
                IN [k |-> Sub(h, 0, 32), c |-> Sub(h, 32, 64), d |-> "00", fp |-> "00000000", i |-> "00000000"]

MaxDepth(x) == x.d = "ff"
\* child number i (eight hex digits); defined for ~MaxDepth(x)
Child(x, i) ==
  LET h == HMAC512(x.c, (IF IsHard(i) THEN "00" \o x.k ELSE Compress(PubOf(x))) \o i)
  IN [k |-> NAdd(Sub(h, 0, 32), x.k), c |-> Sub(h, 32, 64), d |-> Hex1(ByteAt(x.d, 0) + 1), fp |-> Fingerprint(x), i |-> i]

RECURSIVE Derive(_, _)
Derive(x, path) == IF path = <<>> THEN x ELSE Derive(Child(x, Head(path)), Tail(path))

DSha(b) == SHA256(SHA256(b))
Serial(x) == LET b == x.d \o x.fp \o x.i \o x.c \o x.k IN b \o Sub(DSha(b), 0, 4)
\* the faults of serialised data: none means it loads
SerialFaults(b) ==
  IF BLen(b) # 77 THEN {"InvalidDataSize(" \o ToDec(BLen(b)) \o ",77)"}
  ELSE IF Sub(DSha(Sub(b, 0, 73)), 0, 4) # Sub(b, 73, 77) \/ ~ValidKey(Sub(b, 41, 73)) THEN {"InvalidSecretKey"}
  ELSE {}
Unserial(b) == [d |-> Sub(b, 0, 1), fp |-> Sub(b, 1, 5), i |-> Sub(b, 5, 9), c |-> Sub(b, 9, 41), k |-> Sub(b, 41, 73)]

-----------------------------------------------------------------------------
\* RFC 6979 with HMAC-SHA-256, first admissible nonce
RECURSIVE Nonce(_, _)
Nonce(K, V) == LET v == HMAC256(K, V)
               IN IF ValidKey(v) THEN v ELSE LET k == HMAC256(K, v \o "00") IN Nonce(k, HMAC256(k, v))
Rep(b, n) == HexOf([j \in 1..n |-> b])
Rfc6979(k, m) ==
  LET V0 == Rep(1, 32)
      K1 == HMAC256(Zero32, V0 \o "00" \o k \o m)
      V1 == HMAC256(K1, V0)
      K2 == HMAC256(K1, V1 \o "01" \o k \o m)
      V2 == HMAC256(K2, V1)
  IN Nonce(K2, V2)

ModN(x) == NAdd(x, Zero32)
HalfN == "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0"
\* s > (n-1)/2 : doubling wraps exactly for those (2s >= n iff s > (n-1)/2), seen as parity of 2s mod n
IsHighS(s) == ByteAt(NAdd(s, s), 31) % 2 = 1
SignDigest(k, m) ==
  LET q == Rfc6979(k, m)
      R == SecpMulG(q)
      rx == Sub(R, 1, 33)
      r == ModN(rx)
      s0 == NMul(NInv(q), NAdd(ModN(m), NMul(r, k)))
      s == IF IsHighS(s0) THEN NNeg(s0) ELSE s0
      odd == (ByteAt(R, 64) % 2 = 1) # IsHighS(s0)
  IN r \o s \o Hex1((IF odd THEN 1 ELSE 0) + (IF rx # r THEN 2 ELSE 0))
SignMsg(x, msg) == SignDigest(x.k, KECCAK256(msg))

SigSizes == {64, 65}
\* ECDSA verification of r|s, and of r|s|recovery id: then the id must recover this very key
VerifyMsg(pub, msg, sig) ==
  LET r == Sub(sig, 0, 32)  s == Sub(sig, 32, 64)
  IN /\ ValidKey(r) /\ ValidKey(s)
     /\ LET w == NInv(s)
            R == SecpMulAdd(NMul(ModN(KECCAK256(msg)), w), NMul(r, w), pub)
        IN /\ R # "inf"
           /\ ModN(Sub(R, 1, 33)) = r
           /\ BLen(sig) = 65 =>
                LET v == ByteAt(sig, 64)
                IN v <= 3 /\ v % 2 = ByteAt(R, 64) % 2 /\ (v \div 2 = 1) = (Sub(R, 1, 33) # r)
=============================================================================
