------------------------------- MODULE Fixtures -------------------------------
(***************************************************************************)
(* Stored keychain data written by the specification itself, not by the    *)
(* library: every payload of IN is sealed (C03's layout) under its         *)
(* password, with the verdict of WalletFormat on what it holds.            *)
(***************************************************************************)
EXTENDS World, Sealed, Json, IOUtils

Items == ndJsonDeserialize(IOEnv.IN)
NulIn(x) == x # None /\ \E i \in 0..(BLen(x[2]) - 1) : ByteAt(x[2], i) = 0
\* a document given by what it holds; keys are made from a seed for some network, or raw
KeyBytes(k) == IF k.of = "raw" THEN k.b ELSE IF k.of \in BuiltIn THEN KeyData(k.of, k.b) ELSE EchoData(k.of, k.b)
KeyFor(x, n) == x.keys[CHOOSE i \in 1..Len(x.keys) : x.keys[i].n = n]
OptOf(v) == IF v = "none" THEN None ELSE Some(v)
DocOf(x) == [ok |-> TRUE, ver |-> x.ver, seed |-> OptOf(x.seed), mnem |-> OptOf(x.mnem), dict |-> OptOf(x.dict),
             keys |-> [n \in {x.keys[i].n : i \in 1..Len(x.keys)} |-> KeyBytes(KeyFor(x, n))]]
OfDoc(x) ==
  LET d == DocOf(x)
      p == Write(d)
  IN [pw |-> x.pw, kind |-> x.kind, b |-> SealWith(x.pw, x.salt, x.nonce, p),
      good |-> IF Parse(p) = d THEN TRUE ELSE Assert(FALSE, <<"what is written is not what is read", x>>), nul |-> FALSE]
\* sealed by some other scheme: ciphertext and tag under the given key and associated data
Foreign(x) == [pw |-> x.pw, kind |-> x.kind, b |-> SEALA(x.key, x.nonce, x.aad, x.pt), good |-> FALSE, nul |-> FALSE]
\* a signature by the key at a path of a message, or of a digest where there is one
Signed(x) == [net |-> x.net, seed |-> x.seed, p |-> x.p, kind |-> x.kind, of |-> x.of,
              b |-> LET k == KeyData(x.net, x.seed)
                    IN IF x.d = "" THEN KeySign(x.net, k, x.p, x.m) ELSE SignDigest(AtPath(x.net, k, x.p).k, x.d)]
Fixture(x) == IF "d" \in DOMAIN x THEN Signed(x) ELSE IF "ver" \in DOMAIN x THEN OfDoc(x) ELSE IF "aad" \in DOMAIN x THEN Foreign(x) ELSE
  LET d == IF x.kind = "hostile" THEN Bad ELSE Parse(x.pt)     \* no verdict where none is asked for
  IN [pw |-> x.pw, kind |-> x.kind, b |-> SealWith(x.pw, x.salt, x.nonce, x.pt), good |-> d.ok, nul |-> d.ok /\ NulIn(d.mnem)]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Items) |-> Fixture(Items[i])])

VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
