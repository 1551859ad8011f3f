-------------------------------- MODULE Sealed --------------------------------
(* C01, C03: the encrypted container  salt(32) | nonce(12) | tag(16) | ciphertext.                *)
EXTENDS Bytes

Rounds == 19162
MetaSize == 60
SaltOf(b) == Sub(b, 0, 32)
NonceOf(b) == Sub(b, 32, 44)
TagOf(b) == Sub(b, 44, 60)
BodyOf(b) == Sub(b, 60, BLen(b))

\* HMAC pads its key with zeros and hashes keys above its block size, so these passwords are one
RECURSIVE StripNul(_)
StripNul(p) == IF BLen(p) > 0 /\ ByteAt(p, BLen(p) - 1) = 0 THEN StripNul(Sub(p, 0, BLen(p) - 1)) ELSE p
PwKey(p) == StripNul(IF BLen(p) > 128 THEN SHA512(p) ELSE p)

SealKey(pw, salt) == PBKDF2(pw, salt, Rounds, 32)
SealWith(pw, salt, nonce, pt) ==
  LET c == SEAL(SealKey(pw, salt), nonce, pt)
      n == BLen(c) - 16
  IN salt \o nonce \o Sub(c, n, n + 16) \o Sub(c, 0, n)
\* [e, pt]: the error, or the payload with e = ""
OpenWith(pw, b) ==
  IF BLen(b) < MetaSize THEN [e |-> "NotEnoughData", pt |-> ""]
  ELSE LET p == OPEN(SealKey(pw, SaltOf(b)), NonceOf(b), BodyOf(b), TagOf(b))
       IN IF p = "bad" THEN [e |-> "DecryptionFailed", pt |-> ""] ELSE [e |-> "", pt |-> p]
=============================================================================
