------------------------------- MODULE RandomMC -------------------------------
(***************************************************************************)
(* C02: where randomness comes from and goes to.  The system gives an      *)
(* endless stream of fresh symbols.  Managers take what they need when     *)
(* they need it, or keep a supply of their own that they refill; a request *)
(* may fail, and then the call that made it fails and nothing was taken.   *)
(* Every sealing needs a salt and a nonce, every new phrase its entropy;   *)
(* whatever was called before, with whatever arguments, no symbol is ever  *)
(* used twice, none is made up, and the call's arguments never matter.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mgrs, Calls, Most, Chunks    \* Chunks: how much a manager refills at a time (0: nothing is kept)
Salt == 2
Nonce == 1
Need(c) == IF c = "gen" THEN 1 ELSE Salt + Nonce

VARIABLES stream,    \* symbols given out by the system
          supply,    \* manager -> symbols kept
          used,      \* symbols used, in order
          live, chunk, n, last
vars == <<stream, supply, used, live, chunk, n, last>>
Init == stream = 0 /\ supply = [m \in Mgrs |-> <<>>] /\ used = <<>> /\ live = {} /\ chunk \in Chunks /\ n = 0 /\ last = <<"none">>
Emit(a) == PrintT("EDGE " \o ToJson([f |-> <<live, last>>, a |-> a, t |-> <<live', last'>>]))
From(a, b) == [i \in 1..(b - a) |-> a + i]
New == \E m \in Mgrs \ live : /\ live' = live \cup {m} /\ last' = <<"new">>
                              /\ UNCHANGED <<stream, supply, used, chunk, n>>
                              /\ Emit([do |-> "new", m |-> m])
Call == n < Most /\ \E m \in live, c \in Calls :
  LET short == Need(c) - Len(supply[m])
      more == IF short <= 0 THEN 0 ELSE IF short > chunk THEN short ELSE chunk
      have == supply[m] \o From(stream, stream + more)
  IN /\ stream' = stream + more
     /\ used' = used \o SubSeq(have, 1, Need(c))
     /\ supply' = [supply EXCEPT ![m] = SubSeq(have, Need(c) + 1, Len(have))]
     /\ n' = n + 1 /\ last' = <<c, m>> /\ UNCHANGED <<live, chunk>>
     /\ Emit([do |-> c, m |-> m])
\* the system refuses: only the call that asked fails
Refused == n < Most /\ \E m \in live, c \in Calls :
  /\ Len(supply[m]) < Need(c)
  /\ n' = n + 1 /\ last' = <<"refused", m>> /\ UNCHANGED <<stream, supply, used, live, chunk>>
  /\ Emit([do |-> c, m |-> m, refused |-> TRUE])
Next == New \/ Call \/ Refused
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
NeverTwice == Cardinality({used[i] : i \in 1..Len(used)}) = Len(used)
NotMadeUp == \A i \in 1..Len(used) : used[i] \in 1..stream
Kept == \A m \in Mgrs : \A i \in 1..Len(supply[m]) : \A j \in 1..Len(used) : supply[m][i] # used[j]
\* behind the system nobody ever is
Enough == Len(used) <= stream
=============================================================================
