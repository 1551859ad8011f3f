-------------------------------- MODULE Bip39MC --------------------------------
(***************************************************************************)
(* C14: word sequences of every admissible length, made of two runs of     *)
(* equal words, with every last word there is (or every Stride-th entropy, *)
(* with every checksum): which of them carry their                         *)
(* checksum, and what they stand for.                                      *)
(***************************************************************************)
EXTENDS Bip39

CONSTANTS Values, Lengths, Stride

VARIABLES n,      \* words
          w,      \* all of them but the last
          x       \* the last one; -1 when it has not been chosen
vars == <<n, w, x>>
Run(k, m, a, b) == [i \in 1..m |-> IF i <= k THEN a ELSE b]
Init == /\ n \in Lengths /\ x = -1
        /\ \E a, b \in Values : \E k \in {1, n \div 2, n - 2} : w = Run(k, n - 1, a, b)
Cs == CsLen(BitsOfWords(n))
Next == x = -1 /\ x' \in {y \in 0..2047 : (y \div (2 ^ Cs)) % Stride = 0} /\ UNCHANGED <<n, w>>
Spec == Init /\ [][Next]_vars

All == Append(w, x)
-----------------------------------------------------------------------------
\* words stand for their entropy exactly when they are the words of that entropy;
\* the entropy does not depend on the checksum
Bijection == x >= 0 => LET e == EntOf(All)  v == ToWords(e)
                       IN /\ ChecksumOk(All) <=> v = All
                          /\ Len(v) = n /\ SubSeq(v, 1, n - 1) = w /\ v[n] \div (2 ^ Cs) = x \div (2 ^ Cs)
                          /\ 8 * BLen(e) = BitsOfWords(n)
\* whatever entropy: exactly one checksum completes it
OnePerEntropy == x >= 0 /\ x % (2 ^ Cs) = 0 /\ (x \div (2 ^ Cs)) % 4 = 0 => Cardinality({c \in 0..(2 ^ Cs - 1) : ChecksumOk(Append(w, x + c))}) = 1
\* sizes fit together
Fits == BitsOfWords(n) \in Sizes /\ WordsOfBits(BitsOfWords(n)) = n /\ BitsOfWords(n) + Cs = 11 * n
Emit == x >= 0 => LET ok == ChecksumOk(All)
                  IN ok \/ x % 61 = 0 => PrintT("EDGE " \o ToJson([w |-> All, b |-> EntOf(All), ok |-> ok]))
=============================================================================
