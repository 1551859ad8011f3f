-------------------------------- MODULE ConcMC --------------------------------
(***************************************************************************)
(* C23: calls made by several threads on the same manager and keychains.   *)
(* A call is a sequence of steps: it looks at what is shared and never     *)
(* changes (the manager's factories, a keychain's keys), takes random      *)
(* bytes from the system under a lock, works in memory of its own, and     *)
(* returns.  A call may also fail after any step, while it holds the lock  *)
(* too.  TLC visits every interleaving; the order of the steps is kept and *)
(* replayed on the real code, whose callbacks and requests for random      *)
(* bytes are the points at which a thread can be held.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Threads, Steps, Draws, MayFail
\* Steps: how many a call has; Draws: the steps at which it draws, the lock being taken before and left after
VARIABLES pc, lock, stream, got, seen, order, failed
vars == <<pc, lock, stream, got, seen, order, failed>>
Free == -1
Init == /\ pc = [t \in Threads |-> 0] /\ lock = Free /\ stream = 0
        /\ got = [t \in Threads |-> <<>>] /\ seen = [t \in Threads |-> <<>>]
        /\ order = <<>> /\ failed = {}
Done(t) == pc[t] = Steps \/ t \in failed
Shared == "factories and keys"
Step(t) ==
  /\ ~Done(t)
  /\ LET k == pc[t] + 1
     IN IF k \in Draws
        THEN \* take the lock, draw, leave it: the draw itself is where the thread can be held
             \/ /\ lock = Free /\ lock' = t /\ UNCHANGED <<pc, stream, got, seen, order, failed>>
             \/ /\ lock = t
                /\ got' = [got EXCEPT ![t] = Append(@, stream)] /\ stream' = stream + 1
                /\ lock' = Free /\ pc' = [pc EXCEPT ![t] = k] /\ order' = Append(order, t)
                /\ UNCHANGED <<seen, failed>>
        ELSE /\ seen' = [seen EXCEPT ![t] = Append(@, Shared)]
             /\ pc' = [pc EXCEPT ![t] = k] /\ order' = Append(order, t)
             /\ UNCHANGED <<lock, stream, got, failed>>
Fail(t) == /\ MayFail /\ ~Done(t) /\ failed' = failed \cup {t}
           /\ lock' = IF lock = t THEN Free ELSE lock      \* whatever it held is free again
           /\ UNCHANGED <<pc, stream, got, seen, order>>
Next == \E t \in Threads : Step(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
-----------------------------------------------------------------------------
\* what a call sees is what it would see alone
Alone(k) == [i \in 1..(k - Cardinality({d \in Draws : d <= k})) |-> Shared]
AsAlone == \A t \in Threads : seen[t] = Alone(pc[t])
\* randomness is never shared
NeverShared == \A t, u \in Threads : \A i \in 1..Len(got[t]), j \in 1..Len(got[u]) : got[t][i] = got[u][j] => t = u /\ i = j
FullStrength == \A t \in Threads : Len(got[t]) = Cardinality({d \in Draws : d <= pc[t]})
\* nobody waits for ever, also not for one who failed
Finish == <>(\A t \in Threads : Done(t))
Emit == (\A t \in Threads : pc[t] = Steps) => PrintT("EDGE " \o ToJson(order))
=============================================================================
