------------------------------ MODULE ManagersMC ------------------------------
(***************************************************************************)
(* C22: managers built from every list of up to Longest factories, one     *)
(* more at a time.                                                         *)
(***************************************************************************)
EXTENDS Managers, Json, TLC

CONSTANTS Nets, Mins, Maxs, Longest
Facts == {[net |-> n, min |-> a, max |-> b, kind |-> "echo"] : n \in Nets, a \in Mins, b \in Maxs}

VARIABLE fs
Init == fs = <<>>
Next == Len(fs) < Longest /\ \E f \in Facts : fs' = Append(fs, f)
Spec == Init /\ [][Next]_fs

M == Manager(fs)
Rotated == Append(Tail(fs), fs[1])
Swapped == <<fs[Len(fs)]>> \o SubSeq(fs, 2, Len(fs) - 1) \o <<fs[1]>>
-----------------------------------------------------------------------------
\* exactly the networks of the list
Supports == fs # <<>> => DOMAIN M.nets = {fs[i].net : i \in 1..Len(fs)} /\ \A n \in DOMAIN M.nets : M.nets[n].net = n
\* order does not matter for what is supported and required, nor do repetitions
Orderless == Len(fs) > 1 => \A x \in {Rotated, Swapped, fs \o fs, Append(fs, fs[1])} :
  Refused(x) = Refused(fs) /\ DOMAIN Manager(x).nets = DOMAIN M.nets /\ Manager(x).bits = M.bits /\ Manager(x).words = M.words
\* the required size is the greatest minimum, within the range of every factory
Required == fs # <<>> /\ ~Refused(fs) =>
  /\ \A i \in 1..Len(fs) : fs[i].min <= M.bits /\ M.bits <= fs[i].max
  /\ \E i \in 1..Len(fs) : fs[i].min = M.bits
\* a list that leaves no room stays refused whatever is added
Monotone == [][fs # <<>> /\ Refused(fs) /\ MinBits(fs) > 0 => Refused(fs')]_fs
EmptyRefused == fs = <<>> => Refused(fs)
Emit == PrintT("EDGE " \o ToJson([f |-> fs, ok |-> ~Refused(fs)]))
=============================================================================
