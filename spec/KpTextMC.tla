------------------------------- MODULE KpTextMC -------------------------------
(***************************************************************************)
(* C12: key path texts, every text of up to Longest tokens in the place of *)
(* one component (or of the marker), the others being in order.            *)
(***************************************************************************)
EXTENDS KeyPathText, Json, TLC

CONSTANT Longest
Codes(t) == Chars(t)
Tokens == {Codes("0"), Codes("7"), Codes("2147483647"), Codes("2147483648"), Codes("4294967295"), Codes("4294967296"),
           <<39>>, <<43>>, <<45>>, <<32>>, <<233>>, <<47>>, <<8195>>, Codes("m")}

VARIABLES s,   \* the text of the component
          n,   \* tokens in it
          at   \* its position; 0 is the marker
vars == <<s, n, at>>
Init == s = <<>> /\ n = 0 /\ at \in 0..5
Next == n < Longest /\ \E t \in Tokens : s' = s \o t /\ n' = n + 1 /\ at' = at
Spec == Init /\ [][Next]_vars

Rest == <<Codes("m"), Codes("44'"), Codes("0'"), Codes("3'"), Codes("1"), Codes("5")>>
At_(i) == IF i = at THEN s ELSE Rest[i + 1]
Whole == At_(0) \o <<Slash>> \o At_(1) \o <<Slash>> \o At_(2) \o <<Slash>> \o At_(3) \o <<Slash>> \o At_(4) \o <<Slash>> \o At_(5)
Faults == ParseFaults(Whole)
HasSlash == \E i \in 1..Len(s) : s[i] = Slash
-----------------------------------------------------------------------------
\* what is read is printed so that it reads the same, and printing that gives the same text
RoundTrips == Faults = {} =>
  LET p == ParsePath(Whole)  t == Chars(PrintPath(p))
  IN ParseFaults(t) = {} /\ ParsePath(t) = p /\ PrintPath(ParsePath(t)) = PrintPath(p)
\* the fault is where it is
Located == \A f \in Faults :
  IF HasSlash THEN TRUE
  ELSE IF at = 0 THEN SubSeq(f, 1, 18) = "InvalidPathMarker("
  ELSE f \in {"EmptyValueAtIndex" \o At(at), "ParseErrorAtIndex" \o At(at)} \/ SubSeq(f, 1, 29) = "HardenedValueTooBigAtIndex(" \o ToDec(at) \o ","
\* a slash more or less is noticed
Counted == HasSlash => Faults # {}
\* only decimal digits, a sign, an apostrophe and blanks are ever read
Alphabet == Faults = {} /\ at > 0 => \A i \in 1..Len(s) : s[i] \in (48..57) \cup {39, 43, 32, 8195}
\* the other components are read as they are
Others == Faults = {} => \A i \in 1..5 : i # at => ParsePath(Whole)[i] = <<P44, BTC, "80000003", "00000001", "00000005">>[i]
\* nothing wraps: a value read as hardened was below 2^31
Emit == PrintT("EDGE " \o ToJson([t |-> Utf8(FromChars(Whole)), ok |-> Faults = {}]))
=============================================================================
