------------------------------ MODULE Cardano ------------------------------
(* Extended Ed25519 BIP-32, derivation scheme V2 (C09) and its signatures (C11).                  *)
(* An extended key is the 96 bytes kL | kR | chain code.                                          *)
EXTENDS Bytes

KL(x) == Sub(x, 0, 32)
KR(x) == Sub(x, 32, 64)
CC(x) == Sub(x, 64, 96)
Point(x) == EdMulB(KL(x))
PubKey(x) == Point(x) \o CC(x)

\* SHA-512 of the first half of the seed, clamped, third-highest bit cleared; chain code is the second half
Root(seed) ==
  LET h == SHA512(Sub(seed, 0, 32))
      b0 == ByteAt(h, 0) - (ByteAt(h, 0) % 8)
      b31 == ((ByteAt(h, 31) % 32) + 64)
  IN Hex1(b0) \o Sub(h, 1, 31) \o Hex1(b31) \o Sub(h, 32, 64) \o Sub(seed, 32, 64)

HighBad(b) == (ByteAt(b, 31) \div 32) # 2
LowBad(b) == ByteAt(b, 0) % 8 # 0
RootFaults(b) ==
  IF BLen(b) # 96 THEN {"InvalidKeySize(" \o ToDec(BLen(b)) \o ",96)"}
  ELSE (IF HighBad(b) THEN {"InvalidKeyData(HighestBitsInvalid)"} ELSE {})
       \cup (IF LowBad(b) THEN {"InvalidKeyData(LowestBitsInvalid)"} ELSE {})

CChild(x, i) ==
  LET body == IF IsHard(i) THEN Sub(x, 0, 64) ELSE Point(x)
      z == HMAC512(CC(x), (IF IsHard(i) THEN "00" ELSE "02") \o body \o LE32(i))
      c == HMAC512(CC(x), (IF IsHard(i) THEN "01" ELSE "03") \o body \o LE32(i))
  IN LeAdd28Mul8(KL(x), Sub(z, 0, 32)) \o LeAdd256(KR(x), Sub(z, 32, 64)) \o Sub(c, 32, 64)
RECURSIVE CDerive(_, _)
CDerive(x, path) == IF path = <<>> THEN x ELSE CDerive(CChild(x, Head(path)), Tail(path))

CSign(x, msg) ==
  LET r == EdReduce(SHA512(KR(x) \o msg))
      R == EdMulB(r)
      h == EdReduce(SHA512(R \o Point(x) \o msg))
  IN R \o EdMulAdd(h, KL(x), r)
\* RFC 8032 verification with the canonical-S check
CVerify(pub, msg, sig) ==
  LET R == Sub(sig, 0, 32)  S == Sub(sig, 32, 64)
  IN EdBelowL(S) /\ EdCombine(S, EdReduce(SHA512(R \o pub \o msg)), pub) = R
=============================================================================
