------------------------------- MODULE Managers -------------------------------
(***************************************************************************)
(* C22: what a manager is built from.  A factory is [net, min, max, kind]; *)
(* a manager is [nets, words]: its factories by network and the number of  *)
(* words its mnemonics have.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

UsizeMax == "18446744073709551615"
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FactNets(fs) == {fs[i].net : i \in 1..Len(fs)}
\* of several factories for one network one serves
FactOf(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i].net = n /\ \A j \in (i + 1)..Len(fs) : fs[j].net # n]

MinBits(fs) == MaxOf({0} \cup {fs[i].min : i \in 1..Len(fs)})
MaxBits(fs) == MinOf({fs[i].max : i \in 1..Len(fs)})
Refused(fs) == Len(fs) = 0 \/ MinBits(fs) = 0 \/ MinBits(fs) >= MaxBits(fs)
Manager(fs) == [nets |-> [n \in FactNets(fs) |-> FactOf(fs, n)], bits |-> MinBits(fs), words |-> (MinBits(fs) \div 32) * 3]
=============================================================================
