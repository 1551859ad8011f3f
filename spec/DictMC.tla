-------------------------------- MODULE DictMC --------------------------------
(***************************************************************************)
(* C16: every word of every list, and what a hand or a foreign encoder     *)
(* makes of it: which of these texts are words, and of what index.         *)
(***************************************************************************)
EXTENDS Bip39, IOUtils

CONSTANTS Kinds, Ls, Every
Phase == IF "PHASE" \in DOMAIN IOEnv THEN atoi(IOEnv.PHASE) ELSE 0

VARIABLES l, i, kind
vars == <<l, i, kind>>
Init == l \in Ls /\ i \in 0..2047 /\ kind = "word"
Next == kind = "word" /\ kind' \in Kinds /\ UNCHANGED <<l, i>>
Spec == Init /\ [][Next]_vars

Other == [english |-> "french", french |-> "english", japanese |-> "korean", korean |-> "japanese", italian |-> "spanish", spanish |-> "italian"]
         @@ ("chinese-simplified" :> "chinese-traditional") @@ ("chinese-traditional" :> "chinese-simplified")
W == WordList(l)[i + 1]
C == Chars(Text(W))
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
OfChars(c) == Utf8(FromChars(c))
Alike == (97 :> 1072) @@ (99 :> 1089) @@ (101 :> 1077) @@ (105 :> 1110) @@ (111 :> 1086) @@ (112 :> 1088) @@ (120 :> 1093) @@ (121 :> 1091)
T == CASE kind = "word" -> W
       [] kind = "upper" -> OfChars([k \in 1..Len(C) |-> Upper(C[k])])
       [] kind = "title" -> OfChars([C EXCEPT ![1] = Upper(C[1])])
       [] kind = "head" -> OfChars(SubSeq(C, 1, Len(C) - 1))
       [] kind = "tail" -> OfChars(Tail(C))
       [] kind = "four" -> OfChars(SubSeq(C, 1, IF Len(C) < 4 THEN Len(C) ELSE 4))
       [] kind = "plural" -> W \o "73"
       [] kind = "space" -> W \o "20"
       [] kind = "before" -> "20" \o W
       [] kind = "newline" -> W \o "0a"
       [] kind = "nul" -> W \o "00"
       [] kind = "mark" -> W \o "cc81"                          \* a combining accent
       [] kind = "pair" -> W \o WordList(l)[((i + 1) % 2048) + 1]
       [] kind = "two" -> W \o "20" \o WordList(l)[((i + 1) % 2048) + 1]
       [] kind = "composed" -> NFC(W)
       [] kind = "plain" -> OfChars(SelectSeq(C, LAMBDA c : ~(c >= 768 /\ c <= 879)))      \* without its accents
       [] kind = "twice" -> W \o W
       \* other scripts and widths, and what cannot be seen
       [] kind = "kana" -> OfChars([k \in 1..Len(C) |-> IF C[k] >= 12353 /\ C[k] <= 12438 THEN C[k] + 96 ELSE C[k]])
       [] kind = "wide" -> OfChars([k \in 1..Len(C) |-> IF C[k] >= 33 /\ C[k] <= 126 THEN C[k] + 65248 ELSE C[k]])
       [] kind = "cyrillic" -> OfChars([k \in 1..Len(C) |-> IF C[k] \in DOMAIN Alike THEN Alike[C[k]] ELSE C[k]])
       [] kind = "joiner" -> W \o "e2808d"
       [] kind = "bom" -> "efbbbf" \o W
       [] kind = "hyphen" -> OfChars(<<C[1], 173>> \o Tail(C))
       [] kind = "variant" -> W \o "efb880"
       [] kind = "swap" -> OfChars(IF Len(C) < 2 THEN C ELSE [C EXCEPT ![Len(C)] = C[Len(C) - 1], ![Len(C) - 1] = C[Len(C)]])
       [] kind = "next" -> OfChars([C EXCEPT ![Len(C)] = @ + 1])
       [] kind = "first" -> OfChars([C EXCEPT ![1] = @ + 1])
       [] kind = "other" -> WordList(CHOOSE m \in Langs : DictName[m] = Other[DictName[l]])[i + 1]
At == Pos(l, T)
-----------------------------------------------------------------------------
BothWays == kind = "word" => At = i
\* words are what they are decomposed to, and have no separator or capital in them
Normal == kind = "word" => NFKD(W) = W /\ Len(SplitWords(W)) = 1 /\ C # <<>> /\ \A k \in 1..Len(C) : C[k] > 32 /\ ~(C[k] >= 65 /\ C[k] <= 90)
\* a text is found exactly at the place where it stands
Where == At >= 0 => WordList(l)[At + 1] = T
\* no word can be extended by these to another one
Closed == kind \in {"upper", "title", "space", "before", "newline", "nul", "two", "kana", "wide", "cyrillic", "joiner", "bom", "hyphen", "variant"} => (At >= 0 <=> T = W)
\* four letters tell words of these lists apart
Four == kind = "four" /\ l = "English" /\ Len(C) > 4 => At = -1 \/ At # i
Emit == (kind = "word" \/ T # W) /\ ((i + Phase) % Every = 0 \/ (At >= 0 /\ kind # "word")) => PrintT("EDGE " \o ToJson([l |-> l, i |-> i, k |-> kind, t |-> T, at |-> At]))
=============================================================================
