----------------------------- MODULE WalletFormat -----------------------------
(***************************************************************************)
(* C03: the JSON payload.  outer = {version, data: base64}; data decodes   *)
(* to JSON: version 1 {keys}, version 2 {seed, mnemonic, dictionary, keys}.*)
(* A document is [ver, seed, mnem, dict, keys]; absent parts are "none",   *)
(* present ones <<"some", x>>; keys maps networks to key data.             *)
(* Unknown fields are ignored, known ones may appear once; a structure may *)
(* also be written as the array of its fields in order (serde does).       *)
(***************************************************************************)
EXTENDS Bytes

None == <<"none">>
Some(x) == <<"some", x>>
Bad == [ok |-> FALSE, ver |-> 0, seed |-> None, mnem |-> None, dict |-> None, keys |-> <<>>]

\* field f (hex of its name) of an object: the values given for it
Vals(o, f) == SelectSeq(o.a, LAMBDA kv : kv.k = f)
Once(o, f) == Len(Vals(o, f)) = 1
AtMostOnce(o, f) == Len(Vals(o, f)) <= 1
Val(o, f) == Vals(o, f)[1].v

N_version == "76657273696f6e"
N_data == "64617461"
N_seed == "73656564"
N_mnemonic == "6d6e656d6f6e6963"
N_dictionary == "64696374696f6e617279"
N_keys == "6b657973"

\* a structure with these fields, each [n, opt]: sequence of values ("absent" for missing optional ones) or <<>>
Absent == [t |-> "null", a |-> ""]
Struct(x, fs) ==
  IF x.t = "arr" THEN (IF Len(x.a) = Len(fs) THEN x.a ELSE <<>>)
  ELSE IF x.t # "obj" THEN <<>>
  ELSE IF \A i \in 1..Len(fs) : IF fs[i].opt THEN AtMostOnce(x, fs[i].n) ELSE Once(x, fs[i].n)
       THEN [i \in 1..Len(fs) |-> IF Vals(x, fs[i].n) = <<>> THEN Absent ELSE Val(x, fs[i].n)]
       ELSE <<>>

IsB64(x) == x.t = "str" /\ B64Dec(x.a) # "bad"
\* a plain non-negative integer within 32 bits
IsU32(x) == x.t = "num" /\ IF \A i \in 1..Len(x.a) : SubSeq(x.a, i, i) \in {"0","1","2","3","4","5","6","7","8","9"}
                          THEN DecVal([i \in 1..Len(x.a) |-> DigitVal[SubSeq(x.a, i, i)]]).ok ELSE FALSE
U32Of(x) == LET v == DecVal([i \in 1..Len(x.a) |-> DigitVal[SubSeq(x.a, i, i)]]) IN U32(v.hi, v.lo)

LangHex == [English |-> "456e676c697368", French |-> "4672656e6368", Japanese |-> "4a6170616e657365", Korean |-> "4b6f7265616e",
            ChineseSimplified |-> "4368696e65736553696d706c6966696564", ChineseTraditional |-> "4368696e657365547261646974696f6e616c",
            Italian |-> "4974616c69616e", Spanish |-> "5370616e697368"]
LangNamed(h) == {l \in DOMAIN LangHex : LangHex[l] = h}
\* a language is its name; serde also reads the one-field object {"name": null}
DictText(x) == IF x.t = "str" THEN x.a
               ELSE IF x.t = "obj" /\ Len(x.a) = 1 THEN (IF x.a[1].v.t = "null" THEN x.a[1].k ELSE "") ELSE ""
IsDict(x) == LangNamed(DictText(x)) # {}
DictOf(x) == CHOOSE l \in LangNamed(DictText(x)) : TRUE

IsKey(x) == x.t = "arr" /\ Len(x.a) = 2 /\ IsU32(x.a[1]) /\ IsB64(x.a[2])
IsKeys(x) == x.t = "arr" /\ \A i \in 1..Len(x.a) : IsKey(x.a[i])
KeysOf(x) ==
  LET nets == {U32Of(x.a[i].a[1]) : i \in 1..Len(x.a)}
      lastOf(n) == CHOOSE i \in 1..Len(x.a) : U32Of(x.a[i].a[1]) = n /\ \A j \in (i + 1)..Len(x.a) : U32Of(x.a[j].a[1]) # n
  IN [n \in nets |-> B64Dec(x.a[lastOf(n)].a[2].a)]
IsOpt(x, P(_)) == x.t = "null" \/ P(x)
IsStr(x) == x.t = "str"

F1 == << [n |-> N_keys, opt |-> FALSE] >>
F2 == << [n |-> N_seed, opt |-> FALSE], [n |-> N_mnemonic, opt |-> TRUE], [n |-> N_dictionary, opt |-> TRUE], [n |-> N_keys, opt |-> FALSE] >>
F0 == << [n |-> N_version, opt |-> FALSE], [n |-> N_data, opt |-> FALSE] >>

Inner(ver, h) ==
  LET x == JSON(h)
      f == Struct(x, IF ver = 1 THEN F1 ELSE F2)
  IN IF f = <<>> THEN Bad
     ELSE IF ver = 1 THEN
       IF IsKeys(f[1]) THEN [ok |-> TRUE, ver |-> 1, seed |-> None, mnem |-> None, dict |-> None, keys |-> KeysOf(f[1])] ELSE Bad
     ELSE IF IsOpt(f[1], IsB64) /\ IsOpt(f[2], IsStr) /\ IsOpt(f[3], IsDict) /\ IsKeys(f[4])
       THEN [ok |-> TRUE, ver |-> 2,
             seed |-> IF f[1].t = "null" THEN None ELSE Some(B64Dec(f[1].a)),
             mnem |-> IF f[2].t = "null" THEN None ELSE Some(f[2].a),
             dict |-> IF f[3].t = "null" THEN None ELSE Some(DictOf(f[3])),
             keys |-> KeysOf(f[4])]
       ELSE Bad
\* the document a payload holds
Parse(payload) ==
  LET x == JSON(payload)
      f == Struct(x, F0)
  IN IF f = <<>> THEN Bad
     ELSE IF f[1].t # "num" THEN Bad
     ELSE IF f[1].a \notin {"1", "2"} \/ ~IsB64(f[2]) THEN Bad
     ELSE Inner(IF f[1].a = "1" THEN 1 ELSE 2, B64Dec(f[2].a))
\* a document as the library would write it (keys in any order)
Quote(h) == "22" \o h \o "22"
RECURSIVE WriteKeys(_, _)
WriteKeys(keys, ns) == IF ns = {} THEN "" ELSE LET n == CHOOSE n \in ns : TRUE
                       IN Utf8("[" \o U32Dec(n) \o "," \o "\"" \o B64Enc(keys[n]) \o "\"]") \o (IF ns = {n} THEN "" ELSE Utf8(",")) \o WriteKeys(keys, ns \ {n})
WriteOpt(x, W(_)) == IF x = None THEN Utf8("null") ELSE W(x[2])
WB64(b) == Quote(Utf8(B64Enc(b)))
WText(h) == Quote(h)
WName(l) == Quote(LangHex[l])
WriteInner(d) == (IF d.ver = 1 THEN Utf8("{\"keys\":[")
                  ELSE Utf8("{\"seed\":") \o WriteOpt(d.seed, WB64) \o Utf8(",\"mnemonic\":") \o WriteOpt(d.mnem, WText)
                       \o Utf8(",\"dictionary\":") \o WriteOpt(d.dict, WName) \o Utf8(",\"keys\":["))
                 \o WriteKeys(d.keys, DOMAIN d.keys) \o Utf8("]}")
Write(d) == Utf8("{\"version\":" \o ToDec(d.ver) \o ",\"data\":\"") \o Utf8(B64Enc(WriteInner(d))) \o Utf8("\"}")
\* the stored facts, without the version they were stored under
Facts(d) == [seed |-> d.seed, mnem |-> d.mnem, dict |-> d.dict, keys |-> d.keys]
=============================================================================
