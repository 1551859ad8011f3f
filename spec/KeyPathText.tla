----------------------------- MODULE KeyPathText -----------------------------
(* C12, C13: key path text and the per-network constructors.                                      *)
(* Texts are sequences of Unicode code points; components are eight hex digits.                   *)
EXTENDS Keys

White(c) == \/ c \in (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
            \/ c \in 8192..8202
\* places are found all at once, not one by one: texts may be long
Trim(s) == LET k == {i \in 1..Len(s) : ~White(s[i])}
               a == CHOOSE i \in k : \A j \in 1..(i - 1) : White(s[j])
               z == CHOOSE i \in k : \A j \in (i + 1)..Len(s) : White(s[j])
           IN IF k = {} THEN <<>> ELSE SubSeq(s, a, z)
SplitAt(s, c) ==
  LET cuts == (<<0>> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c) \o <<Len(s) + 1>>)
  IN [i \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[i] + 1, cuts[i + 1] - 1)]
Slash == 47
Quote == 39
Plus == 43
IsDec(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
Unsigned(s) == IF s # <<>> /\ s[1] = Plus THEN Tail(s) ELSE s
Digits(s) == LET k == {i \in 1..Len(s) : s[i] # 48}
                 a == CHOOSE i \in k : \A j \in 1..(i - 1) : s[j] = 48
             IN IF k = {} THEN <<48>> ELSE SubSeq(s, a, Len(s))
ValOf(s) == LET d == Digits(s) IN IF Len(d) > 10 THEN [ok |-> FALSE, hi |-> 0, lo |-> 0] ELSE DecVal([i \in 1..Len(d) |-> d[i] - 48])

\* one component at position i: [v, e], the value or the admissible errors
At(i) == "(" \o ToDec(i) \o ")"
Component(i, s) ==
  LET hard == s # <<>> /\ s[Len(s)] = Quote
      n == IF hard THEN SubSeq(s, 1, Len(s) - 1) ELSE s
      d == Unsigned(n)
      x == ValOf(d)
  IN IF n = <<>> THEN [v |-> "", e |-> {"EmptyValueAtIndex" \o At(i)}]
     ELSE IF ~IsDec(d) \/ ~x.ok THEN [v |-> "", e |-> {"ParseErrorAtIndex" \o At(i)}]
     ELSE LET u == U32(x.hi, x.lo)
          IN IF hard /\ IsHard(u)
             THEN [v |-> "", e |-> {"ParseErrorAtIndex" \o At(i), "HardenedValueTooBigAtIndex(" \o ToDec(i) \o "," \o U32Dec(u) \o ")"}]
             ELSE [v |-> IF hard THEN Harden(u) ELSE u, e |-> {}]

Parts(text) == LET p == SplitAt(text, Slash) IN [i \in 1..Len(p) |-> Trim(p[i])]
\* several faults may be present: any of them may be named
ParseFaults(text) ==
  LET p == Parts(text)
  IN (IF Len(p) # 6 THEN {"InvalidPartsCount(" \o ToDec(Len(p)) \o ")"} ELSE {})
     \cup (IF p[1] # <<109>> THEN {"InvalidPathMarker(x" \o Utf8(FromChars(p[1])) \o ")"} ELSE {})
     \cup (IF Len(p) = 6 THEN UNION {Component(i, p[i + 1]).e : i \in 1..5} ELSE {})
ParsePath(text) == LET p == Parts(text) IN [i \in 1..5 |-> Component(i, p[i + 1]).v]

PrintNum(u) == IF IsHard(u) THEN U32Dec(Soften(u)) \o "'" ELSE U32Dec(u)
PrintPath(p) == "m/" \o PrintNum(p[1]) \o "/" \o PrintNum(p[2]) \o "/" \o PrintNum(p[3]) \o "/" \o PrintNum(p[4]) \o "/" \o PrintNum(p[5])

-----------------------------------------------------------------------------
\* constructors: f names the function, t is the testnet flag; account a, change c, address d
MakeFaults(f, a, c, d) ==
       (IF IsHard(a) THEN {"InvalidAccount(" \o U32Dec(a) \o ")"} ELSE {})
  \cup (IF f \notin {"eth", "ethmm"} /\ c \notin {"00000000", "00000001"} THEN {"InvalidChange(" \o U32Dec(c) \o ")"} ELSE {})
  \cup (IF f \notin {"eth", "ethmm"} /\ IsHard(d) THEN {"InvalidAddress(" \o U32Dec(d) \o ")"} ELSE {})
MakePath(f, t, a, c, d) ==
  CASE f = "btc44" -> <<P44, IF t THEN "80000001" ELSE BTC, Harden(a), c, d>>
    [] f = "btc49" -> <<"80000031", IF t THEN "80000001" ELSE BTC, Harden(a), c, d>>
    [] f = "btc84" -> <<"80000054", IF t THEN "80000001" ELSE BTC, Harden(a), c, d>>
    [] f = "eth" -> <<P44, ETH, Harden(a), U32Zero, U32Zero>>
    [] f = "ethmm" -> <<P44, ETH, "80000000", U32Zero, a>>
    [] f = "ada" -> <<P44, ADA, Harden(a), c, d>>
NetOfMaker(f) == IF f \in {"btc44", "btc49", "btc84"} THEN BTC ELSE IF f = "ada" THEN ADA ELSE ETH
=============================================================================
