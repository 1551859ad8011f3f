------------------------------- MODULE FormatMC -------------------------------
(***************************************************************************)
(* C03: stored documents, member by member in every order, with members    *)
(* missing, null, repeated, of another kind, or unknown - under version 1  *)
(* and 2.  The laws of reading, and the payloads to replay.                *)
(***************************************************************************)
EXTENDS World, Json

CONSTANTS Longest
Seed64 == "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f"
K1 == KeyData(BTC, Seed64)
K2 == KeyData(ADA, Seed64)
Key(n, b) == "[" \o U32Dec(n) \o ",\"" \o B64Enc(b) \o "\"]"
Unknown == "00000007"
Member(n, v) == [n |-> n, v |-> v]
Members == {
  Member("seed", "null"), Member("seed", "\"" \o B64Enc(Seed64) \o "\""), Member("seed", "7"),
  Member("mnemonic", "null"), Member("mnemonic", "\"a b\""),
  Member("dictionary", "null"), Member("dictionary", "\"Korean\""), Member("dictionary", "\"Klingon\""),
  Member("keys", "[]"), Member("keys", "[" \o Key(BTC, K1) \o "]"), Member("keys", "[" \o Key(Unknown, "00") \o "," \o Key(ADA, K2) \o "," \o Key(BTC, K1) \o "]"),
  Member("keys", "[" \o Key(BTC, "") \o "," \o Key(BTC, K1) \o "]"), Member("keys", "null"),
  Member("x", "[1]") }
Names == {"seed", "mnemonic", "dictionary", "keys", "x"}

VARIABLE ms
Init == ms = <<>>
Has(s, n) == {i \in 1..Len(s) : s[i].n = n}
\* at most one member is repeated
Next == /\ Len(ms) < Longest
        /\ \A n \in Names : Cardinality(Has(ms, n)) < 2
        /\ \E m \in Members : ms' = Append(ms, m)
Spec == Init /\ [][Next]_ms

RECURSIVE Listed(_)
Listed(s) == IF s = <<>> THEN "" ELSE "\"" \o s[1].n \o "\":" \o s[1].v \o (IF Len(s) > 1 THEN "," ELSE "") \o Listed(Tail(s))
Object(s) == Utf8("{" \o Listed(s) \o "}")
Payload(ver, s) == Utf8("{\"version\":" \o ToDec(ver) \o ",\"data\":\"" \o B64Enc(Object(s)) \o "\"}")
Doc(ver, s) == Parse(Payload(ver, s))
D2 == Doc(2, ms)
D1 == Doc(1, ms)
The(n) == ms[CHOOSE i \in 1..Len(ms) : ms[i].n = n].v
Single(n) == Cardinality(Has(ms, n)) = 1
AtMost(n) == Cardinality(Has(ms, n)) <= 1
-----------------------------------------------------------------------------
\* what is readable, said without the parser
Readable2 == /\ Single("seed") /\ Single("keys") /\ AtMost("mnemonic") /\ AtMost("dictionary")
             /\ The("seed") # "7" /\ The("keys") # "null"
             /\ Single("dictionary") => The("dictionary") # "\"Klingon\""
Readable1 == Single("keys") /\ The("keys") # "null"
Judged == D2.ok = Readable2 /\ D1.ok = Readable1
\* version 1 holds keys and nothing else; both versions hold the same keys
Versions == /\ D1.ok => D1.seed = None /\ D1.mnem = None /\ D1.dict = None
            /\ D1.ok /\ D2.ok => D1.keys = D2.keys
\* order and unknown members do not matter
Known(s) == SelectSeq(s, LAMBDA m : m.n # "x")
Turned(s) == Append(Tail(s), s[1])
Orderless == ms # <<>> => Doc(2, Turned(ms)) = D2 /\ Doc(1, Turned(ms)) = D1
Ignored == Doc(2, Known(ms)) = D2 /\ Doc(1, Known(ms)) = D1
\* what is read and written again reads the same, also when it comes from version 1
RoundTrip == /\ D2.ok => Parse(Write(D2)) = D2
             /\ D1.ok => LET d == [D1 EXCEPT !.ver = 2] IN Parse(Write(d)) = d /\ Facts(Parse(Write(d))) = Facts(D1)
\* the last of two keys for one network counts
LastWins == D2.ok /\ BTC \in DOMAIN D2.keys => D2.keys[BTC] = K1
Emit == \A v \in {1, 2} : PrintT("EDGE " \o ToJson([v |-> v, pt |-> Payload(v, ms), ok |-> Doc(v, ms).ok]))
=============================================================================
