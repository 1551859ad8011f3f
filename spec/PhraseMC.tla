------------------------------- MODULE PhraseMC -------------------------------
(***************************************************************************)
(* C15: a phrase is typed word by word.  Each step adds a separator and a  *)
(* word; a slip - a foreign, doubled or empty word, a word with something  *)
(* attached, another separator, a blank at an end - may happen Slips       *)
(* times.  Acceptance is decided here by counting words and slips, and     *)
(* independently by Bip39's reading of the finished text.                  *)
(***************************************************************************)
EXTENDS Bip39

CONSTANTS TypedIn, Slips, Longest, Starts

VARIABLES l,      \* language
          s,      \* where in the dictionary its words are taken
          t,      \* text so far (hex)
          n,      \* words typed
          slips   \* slips so far
vars == <<l, s, t, n, slips>>

Nth(k) == WordList(l)[((s + 409 * k) % 2048) + 1]
Other == IF l = "Japanese" THEN "Korean" ELSE "Japanese"
Foreign == WordList(Other)[((s + n) % 2048) + 1]
Right == Nth(n)
\* words that are not in the dictionary
Wrong == {Foreign, Right \o Right, "", Right \o "cc81", "00" \o Right, Right \o "e2808b", "31"}
\* separators that are not one blank
Odd == {"2020", "09", "0a", "e38080", "c2a0", "2c20"}

Type(w, sep, d) == /\ n < Longest
                   /\ t' = (IF n = 0 THEN "" ELSE t \o sep) \o w
                   /\ n' = n + 1 /\ slips' = slips + d /\ UNCHANGED <<l, s>>
Word == Type(Right, Space, 0)
WrongWord == slips < Slips /\ \E w \in Wrong : Type(w, Space, 1)
WrongSep == slips < Slips /\ n > 0 /\ \E x \in Odd : Type(Right, x, 1)
EndBlank == slips < Slips /\ n > 0 /\ \E x \in {"20", "0a"} : t' \in {t \o x, x \o t} /\ slips' = slips + 1 /\ UNCHANGED <<l, s, n>>
Init == l \in TypedIn /\ s \in Starts /\ t = "" /\ n = 0 /\ slips = 0
Next == Word \/ WrongWord \/ WrongSep \/ EndBlank
Spec == Init /\ [][Next]_vars

Faults == PhraseFaults(l, t)
-----------------------------------------------------------------------------
\* accepted exactly as spelled: no slip, and an admissible number of words
AsSpelled == (Faults = {}) <=> (slips = 0 /\ n \in Counts)
\* an accepted phrase is the phrase of its words
Respelled == slips = 0 /\ n > 0 => LET w == [i \in 1..n |-> ((s + 409 * (i - 1)) % 2048)]
                                   IN Phrase(l, w) = t /\ (Faults = {} => PhraseWords(l, t) = w)
\* no other language accepts it by accident unless it has all its words
Elsewhere == Faults = {} => \A k \in Langs : (PhraseFaults(k, t) = {}) = (\A i \in 1..n : InDict(k, Nth(i - 1)))
\* the count is named when it is the only thing wrong
Named == slips = 0 /\ n \notin Counts /\ n > 0 => Faults = {CountErr(n)}
Emit == PrintT("EDGE " \o ToJson([l |-> l, t |-> t, ok |-> Faults = {}, n |-> n]))
=============================================================================
