-------------------------------- MODULE WipeMC --------------------------------
(***************************************************************************)
(* C20: copies of one secret, made in different places, cloned, read and   *)
(* dropped in any order.  Every copy has memory of its own: cells "secret" *)
(* while it lives; dropping overwrites the cells one by one before the     *)
(* memory is given back, whatever the other copies do meanwhile.           *)
(***************************************************************************)
EXTENDS Wipe, Json

CONSTANTS Names, Places, Cells    \* Cells: pieces of memory per copy
None == "none"
NoOne == 0
VARIABLES at,      \* copy -> place, or None
          mem,     \* copy -> its memory, also after it died
          dying    \* the copy being dropped
vars == <<at, mem, dying>>
Held == [i \in 1..Cells |-> "secret"]
Init == at = [o \in Names |-> None] /\ mem = [o \in Names |-> [i \in 1..Cells |-> "zero"]] /\ dying = NoOne
Emit(a) == PrintT("EDGE " \o ToJson([f |-> at, a |-> a, t |-> at']))

Free == {o \in Names : at[o] = None}
Live == Names \ Free
\* names are interchangeable: the next free one
Next1 == CHOOSE o \in Free : \A p \in Free : o <= p
New == Free # {} /\ \E p \in Places :
  at' = [at EXCEPT ![Next1] = p] /\ mem' = [mem EXCEPT ![Next1] = Held] /\ UNCHANGED dying /\ Emit([do |-> "new", o |-> Next1, place |-> p])
Clone == Free # {} /\ \E o \in Live, p \in Places :
  at' = [at EXCEPT ![Next1] = p] /\ mem' = [mem EXCEPT ![Next1] = mem[o]] /\ UNCHANGED dying /\ Emit([do |-> "clone", from |-> o, o |-> Next1, place |-> p])
Read == \E o \in Live : UNCHANGED vars /\ Emit([do |-> "read", o |-> o])
Drop == \E o \in Live : at' = [at EXCEPT ![o] = None] /\ dying' = o /\ UNCHANGED mem /\ Emit([do |-> "drop", o |-> o])
Wiping == LET i == CHOOSE i \in 1..Cells : mem[dying][i] = "secret" /\ \A j \in 1..(i - 1) : mem[dying][j] = "zero"
          IN /\ mem' = [mem EXCEPT ![dying][i] = "zero"]
             /\ dying' = IF i = Cells THEN NoOne ELSE dying
             /\ UNCHANGED at
Next == IF dying # NoOne THEN Wiping ELSE New \/ Clone \/ Read \/ Drop
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* whoever is not alive (and not being wiped just now) has left nothing
Gone == \A o \in Free \ {dying} : \A i \in 1..Cells : mem[o][i] = "zero"
\* whoever is alive is whole
Whole == \A o \in Live : mem[o] = Held
=============================================================================
