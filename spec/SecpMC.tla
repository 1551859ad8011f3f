-------------------------------- MODULE SecpMC --------------------------------
(***************************************************************************)
(* C08, C11, C21: extended secp256k1 keys derived step by step, and the    *)
(* laws they obey.  Every law states a second way to the same thing:       *)
(* public derivation for soft children, key recovery for signatures,       *)
(* reading back for the serialised form.                                   *)
(***************************************************************************)
EXTENDS Keys, Json, TLC, IOUtils

CONSTANTS Kind           \* "paths": levels of accepted paths; "any": the same few indices at every level

Seeds == {Sub(IOEnv.SEEDS, 64 * i, 64 * i + 64) : i \in 0..(BLen(IOEnv.SEEDS) \div 64 - 1)}      \* one after the other
Few == {"00000000", "00000001", "7fffffff", "80000000", "ffffffff"}
Levels == IF Kind = "any" THEN <<Few, Few, Few>>
          ELSE <<{P44, "80000054", "00000000"}, {BTC, ETH}, {"80000000", "80000001", "ffffffff"}, {"00000000", "00000001"}, {"00000000", "7fffffff"}>>
Depths == IF Kind = "any" THEN {"00", "7f", "fd"} ELSE {"00"}

VARIABLES seed,
          top,    \* the key the derivation started from
          path,   \* the steps
          x       \* the key reached
vars == <<seed, top, path, x>>
Init == seed \in Seeds /\ (\E d \in Depths : top = [Master(seed) EXCEPT !.d = d]) /\ path = <<>> /\ x = top
Next == /\ Len(path) < Len(Levels) /\ ~MaxDepth(x)
        /\ \E i \in Levels[Len(path) + 1] : x' = Child(x, i) /\ path' = Append(path, i)
        /\ UNCHANGED <<seed, top>>
Spec == Init /\ [][Next]_vars

Steps == Len(path)
One == "0000000000000000000000000000000000000000000000000000000000000001"
S == Serial(x)
Msg == "6d" \o x.i
-----------------------------------------------------------------------------
\* a soft child's public key follows from the parent's public key alone
PublicChild(y, i) == LET h == HMAC512(y.c, Compress(PubOf(y)) \o i)
                     IN [p |-> SecpMulAdd(Sub(h, 0, 32), One, PubOf(y)), c |-> Sub(h, 32, 64)]
PublicDerivation == \A i \in {"00000000", "7fffffff", "00000100"} : ~MaxDepth(x) =>
  LET c == Child(x, i)  q == PublicChild(x, i) IN PubOf(c) = q.p /\ c.c = q.c
\* a hardened one does not: it differs from what the public key would give
Hardened == ~MaxDepth(x) => LET c == Child(x, "80000000") IN PubOf(c) # PublicChild(x, "80000000").p
\* the same key whatever way it is reached
Again == x = Derive(top, path)
Ancestry == /\ ByteAt(x.d, 0) = ByteAt(top.d, 0) + Steps
            /\ Steps > 0 => x.i = path[Steps] /\ x.fp = Fingerprint(Derive(top, SubSeq(path, 1, Steps - 1)))
            /\ Steps = 0 => x.i = U32Zero /\ x.fp = U32Zero
InRange == ValidKey(x.k)
\* siblings are different keys
Siblings == ~MaxDepth(x) => Cardinality({Serial(Child(x, i)) : i \in Few}) = Cardinality(Few)
\* the serialised form reads back, and no damaged byte goes unnoticed
ReadsBack == SerialFaults(S) = {} /\ Unserial(S) = x /\ BLen(S) = 77
Damaged(i) == LET b == ByteAt(S, i) IN Sub(S, 0, i) \o Hex1(IF b % 2 = 0 THEN b + 1 ELSE b - 1) \o Sub(S, i + 1, 77)
Noticed == Steps <= 1 => \A i \in 0..76 : SerialFaults(Damaged(i)) # {}
Lengths == \A n \in {0, 1, 73, 76} : SerialFaults(Sub(S, 0, n)) # {}
\* signatures: valid, low, recoverable, and for nothing else
Sg == SignMsg(x, Msg)
Signs == LET g == Sg  p == PubOf(x)
         IN /\ VerifyMsg(p, Msg, g) /\ VerifyMsg(p, Msg, Sub(g, 0, 64))
            /\ ~IsHighS(Sub(g, 32, 64))
            /\ ~VerifyMsg(p, Msg \o "00", g)
            /\ ~VerifyMsg(p, Msg, Sub(g, 0, 64) \o Hex1((ByteAt(g, 64) + 1) % 4))
            /\ ~VerifyMsg(PubOf(Child([x EXCEPT !.d = "00"], "00000005")), Msg, g)
            \* the other root of the equation
            /\ VerifyMsg(p, Msg, Sub(g, 0, 32) \o NNeg(Sub(g, 32, 64)))
            /\ ~VerifyMsg(p, Msg, Sub(g, 0, 32) \o NNeg(Sub(g, 32, 64)) \o Sub(g, 64, 65))
Recovers == LET g == Sg  r == Sub(g, 0, 32)  s == Sub(g, 32, 64)
                R == SecpLift(r, ByteAt(g, 64) % 2)
                w == NInv(r)
            IN ByteAt(g, 64) <= 1 => SecpMulAdd(NNeg(NMul(ModN(KECCAK256(Msg)), w)), NMul(s, w), R) = PubOf(x)
Emit == PrintT("EDGE " \o ToJson([seed |-> seed, top |-> Serial(top), path |-> path, d |-> S, m |-> Msg]))
=============================================================================
