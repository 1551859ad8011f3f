-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Primitives the specification builds on.  Byte strings are strings of    *)
(* lower-case hex digits.  The bodies below are the *symbolic* reading     *)
(* (free constructors) - java/vk/Prim.java overrides every one of them     *)
(* with the concrete function when TLC runs with                           *)
(* -Dtlc2.overrides.TLCOverrides=...:vk.Prim                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* hashes and key derivation
SHA256(x)               == <<"sha256", x>>
SHA512(x)               == <<"sha512", x>>
KECCAK256(x)            == <<"keccak256", x>>
RIPEMD160(x)            == <<"ripemd160", x>>
HMAC512(k, x)           == <<"hmac512", k, x>>
HMAC256(k, x)           == <<"hmac256", k, x>>
PBKDF2(pw, salt, n, l)  == <<"pbkdf2", pw, salt, n, l>>      \* HMAC-SHA512, n rounds, l bytes

\* ChaCha20-Poly1305 without associated data: ciphertext | tag, and its inverse ("bad" when the tag is wrong)
SEAL(k, nonce, pt)       == <<"seal", k, nonce, pt>>
SEALA(k, nonce, aad, pt) == <<"seal", k, nonce, aad, pt>>   \* with associated data
OPEN(k, nonce, ct, tag)  == IF ct[1] = "seal" /\ ct[2] = k /\ ct[3] = nonce THEN ct[4] ELSE "bad"

\* secp256k1: points are 65-byte uncompressed encodings or "inf"; scalars are 32 bytes, big endian
SecpMulG(k)             == <<"mulg", k>>
SecpMulAdd(a, b, q)     == <<"muladd", a, b, q>>              \* a*G + b*Q
SecpLift(x, odd)        == <<"lift", x, odd>>                 \* point with this x and parity, or "none"
NAdd(a, b)              == <<"nadd", a, b>>                   \* arithmetic modulo the group order
NMul(a, b)              == <<"nmul", a, b>>
NNeg(a)                 == <<"nneg", a>>
NInv(a)                 == <<"ninv", a>>
BeAdd256(a, b)          == <<"add256", a, b>>                 \* plain sum, or "over"

\* edwards25519: encodings and scalars are 32 bytes, little endian
EdMulB(k)               == <<"mulb", k>>
EdReduce(x)             == <<"reduce", x>>                    \* modulo the group order L
EdMulAdd(a, b, c)       == <<"edmuladd", a, b, c>>            \* a*b + c modulo L
EdBelowL(x)             == TRUE
EdCombine(s, h, a)      == <<"combine", s, h, a>>             \* s*B - h*A, or "none"
LeAdd28Mul8(x, y)       == <<"add28", x, y>>                  \* x + 8 * y[0..28)  modulo 2^256
LeAdd256(x, y)          == <<"leadd", x, y>>                  \* x + y  modulo 2^256
EdPlusL(x)              == <<"plusl", x>>

\* text
Utf8(s)                 == <<"utf8", s>>                      \* bytes of a text
IsUtf8(h)               == TRUE
NFKD(h)                 == h                                  \* Unicode normal forms of the text
NFC(h)                  == h
Text(h)                 == h[2]
Chars(s)                == <<>>                               \* code points
FromChars(c)            == <<"chars", c>>
Split(s, sep)           == <<s>>
B64Enc(h)               == <<"b64", h>>
B64Dec(h)               == h[2]                               \* argument and result in hex; "bad"
JSON(h)                 == [t |-> "bad", a |-> ""]            \* syntax tree
=============================================================================
