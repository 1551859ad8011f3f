-------------------------------- MODULE Wipe --------------------------------
(***************************************************************************)
(* C20: secrets in memory.  A history creates copies of secrets (at one of *)
(* several places), reads and clones them and drops them in any order.     *)
(* e.left is the longest run of the secret's bytes found where a dropped   *)
(* copy used to live, e.kept the places of the secret, zero bytes aside,   *)
(* that still hold their bytes; e.intact tells of every copy still alive   *)
(* whether its bytes are all there.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* runs shorter than this may be chance
Noise == 3
W_New(copies, e) == (e.o :> "held") @@ copies
W_Drop(copies, e) == [o \in DOMAIN copies \ {e.o} |-> copies[o]]
\* one byte may still be there by chance, but the same one not time after time: ends maps a size of secret and
\* a way to die (e.class) to how many died so and the places that kept their bytes every time
Times == 4
Kept(e) == {e.kept[i] : i \in 1..Len(e.kept)}
W_Note(ends, e) == LET k == e.class
                   IN IF k \in DOMAIN ends THEN [ends EXCEPT ![k] = [n |-> @.n + 1, always |-> @.always \cap Kept(e)]]
                      ELSE (k :> [n |-> 1, always |-> Kept(e)]) @@ ends
NothingStays(ends) == \A k \in DOMAIN ends : ends[k].n >= Times => ends[k].always = {}
WipeOk(copies, e) ==
  CASE e.op = "wipe.new" -> e.o \notin DOMAIN copies
    [] e.op = "wipe.clone" -> e.from \in DOMAIN copies /\ e.o \notin DOMAIN copies
    [] e.op = "wipe.read" -> e.o \in DOMAIN copies /\ e.same
    [] e.op = "wipe.drop" -> /\ e.o \in DOMAIN copies
                             /\ e.left <= Noise
                             /\ \A i \in 1..Len(e.intact) : e.intact[i]
    [] e.op = "wipe.dead" -> e.left <= Noise       \* a copy that lived and died inside one call
=============================================================================
