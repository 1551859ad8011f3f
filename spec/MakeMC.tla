-------------------------------- MODULE MakeMC --------------------------------
(***************************************************************************)
(* C13: the path constructors over every class of argument.                *)
(***************************************************************************)
EXTENDS KeyPathText, Json, FiniteSets, TLC

Makers == {"btc44", "btc49", "btc84", "eth", "ethmm", "ada"}
Nums == {"00000000", "00000001", "00010000", "7ffffffe", "7fffffff", "80000000", "80000001", "ffffffff"}
Chgs == {"00000000", "00000001", "00000002", "00000100", "80000000", "80000001"}

VARIABLES f, t, a, c, d
vars == <<f, t, a, c, d>>
Init == f = "btc44" /\ t = FALSE /\ a = "00000000" /\ c = "00000000" /\ d = "00000000"
Next == \/ \E x \in Makers : f' = x /\ UNCHANGED <<t, a, c, d>>
        \/ t' = ~t /\ UNCHANGED <<f, a, c, d>>
        \/ \E x \in Nums : a' = x /\ UNCHANGED <<f, t, c, d>>
        \/ \E x \in Chgs : c' = x /\ UNCHANGED <<f, t, a, d>>
        \/ \E x \in Nums : d' = x /\ UNCHANGED <<f, t, a, c>>
Spec == Init /\ [][Next]_vars

Faults == MakeFaults(f, a, c, d)
P == MakePath(f, t, a, c, d)
Test == t /\ f \in {"btc44", "btc49", "btc84"}
-----------------------------------------------------------------------------
\* a mainnet path is served by its own network and no other; a testnet path by none
Served == Faults = {} => \A n \in BuiltIn : (PathFaults(n, P) = {}) = (n = NetOfMaker(f) /\ ~Test)
\* the arguments are where they belong, the rest is fixed
Spelled == Faults = {} =>
  /\ f \in {"btc44", "btc49", "btc84", "ada"} => P[3] = Harden(a) /\ P[4] = c /\ P[5] = d
  /\ f = "eth" => P = <<P44, ETH, Harden(a), U32Zero, U32Zero>>
  /\ f = "ethmm" => P = <<P44, ETH, "80000000", U32Zero, a>>
\* refused exactly for out-of-range arguments that are used
Refusal == (Faults = {}) <=> /\ ~IsHard(a)
                             /\ (f \notin {"eth", "ethmm"} => c \in {U32Zero, "00000001"} /\ ~IsHard(d))
\* two argument tuples of one constructor never give the same path
PrintsBack == Faults = {} => LET x == Chars(PrintPath(P)) IN ParseFaults(x) = {} /\ ParsePath(x) = P
OneToOne == [][Faults = {} /\ Faults' = {} /\ f' = f /\ vars' # vars /\ f \notin {"eth", "ethmm"} /\ (t' = t \/ f # "ada") => P' # P]_vars
Emit == PrintT("EDGE " \o ToJson([fn |-> f, testnet |-> t, a |-> a, c |-> c, d |-> d, ok |-> Faults = {}, net |-> NetOfMaker(f), p |-> P]))
=============================================================================
