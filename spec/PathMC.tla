-------------------------------- MODULE PathMC --------------------------------
(***************************************************************************)
(* C10, C13: key paths component by component.  A path is changed one      *)
(* component at a time, to every class of value; which networks serve it   *)
(* and what they find at fault follows.                                    *)
(***************************************************************************)
EXTENDS KeyPathText, Json, FiniteSets, TLC

Purposes == {P44, "80000031", "80000054", "8000073c", "0000002c", "80000000", "ffffffff", "00000000"}
Coins    == {BTC, ETH, ADA, "00000000", "0000003c", "00000717", "80000001", "8000003d"}
Accounts == {"80000000", "80000001", "ffffffff", "00000000", "7fffffff"}
Changes  == {"00000000", "00000001", "00000002", "7fffffff", "80000000", "80000001"}
Adrs     == {"00000000", "7fffffff", "80000000", "ffffffff"}
Values   == <<Purposes, Coins, Accounts, Changes, Adrs>>

VARIABLE p
Init == p = <<P44, ETH, "80000000", "00000000", "00000000">>
Next == \E i \in 1..5 : \E v \in Values[i] : v # p[i] /\ p' = [p EXCEPT ![i] = v]
Spec == Init /\ [][Next]_p

Serves(n) == PathFaults(n, p) = {}
Fault == <<"InvalidPurpose(", "InvalidCoin(", "InvalidAccount(", "InvalidChange(", "InvalidAddress(">>
Names(f, i) == SubSeq(f, 1, Len(Fault[i])) = Fault[i]
-----------------------------------------------------------------------------
\* no two networks serve the same path
OneOwner == \A m, n \in BuiltIn : Serves(m) /\ Serves(n) => m = n
\* exactly the documented paths are served
AsDocumented == \A n \in BuiltIn :
  Serves(n) <=> /\ p[2] = n /\ (n = BTC \/ p[1] = P44)
                /\ IsHard(p[3]) /\ p[4] \in {"00000000", "00000001"} /\ ~IsHard(p[5])
\* at most one fault per component, and it names its value
OneFaultEach == \A n \in BuiltIn : \A i \in 1..5 :
  LET f == {x \in PathFaults(n, p) : Names(x, i)}
  IN Cardinality(f) <= 1 /\ \A x \in f : SubSeq(x, Len(Fault[i]) + 1, Len(Fault[i]) + Len(U32Dec(p[i]))) = U32Dec(p[i])
\* C12: whatever it is, it is printed so that it reads the same
PrintsBack == LET t == Chars(PrintPath(p)) IN ParseFaults(t) = {} /\ ParsePath(t) = p
\* the fault of a component does not depend on the others
Own(n, i, v) == PathFaults(n, [<<P44, n, "80000000", "00000000", "00000000">> EXCEPT ![i] = v])
Local == \A n \in BuiltIn : PathFaults(n, p) = UNION {Own(n, i, p[i]) : i \in 1..5}
Emit == PrintT("EDGE " \o ToJson([p |-> p, ok |-> {n \in BuiltIn : Serves(n)}]))
=============================================================================
