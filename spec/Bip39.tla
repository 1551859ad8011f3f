-------------------------------- MODULE Bip39 --------------------------------
(* C14, C15, C16: entropy, mnemonics, dictionaries and seeds. Words and texts are hex of UTF-8.   *)
EXTENDS Bits11, Json, TLC

Langs == {"English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"}
\* (vk.Prim keeps the lists and looks words up faster)
WordList(l) == JsonDeserialize("wordlists/" \o l \o ".json")
Dict == [l \in Langs |-> WordList(l)]
\* position from 0, -1 for other words
Pos(l, w) == LET d == WordList(l) IN IF \E i \in 1..Len(d) : d[i] = w THEN (CHOOSE i \in 1..Len(d) : d[i] = w) - 1 ELSE -1
InDict(l, w) == Pos(l, w) >= 0
\* the names bip39 gives its dictionaries
DictName == [English |-> "english", French |-> "french", Japanese |-> "japanese", Korean |-> "korean",
             ChineseSimplified |-> "chinese-simplified", ChineseTraditional |-> "chinese-traditional",
             Italian |-> "italian", Spanish |-> "spanish"]

Sizes == {96, 128, 160, 192, 224, 256}              \* bits of entropy
Counts == {9, 12, 15, 18, 21, 24}                   \* words
WordsOfBits(b) == (b \div 32) * 3
BitsOfWords(w) == (w \div 3) * 32
CsLen(bits) == bits \div 32
SizeErr(bits) == "WrongKeySize(" \o ToDec(bits) \o ")"
CountErr(n) == "WrongNumberOfWords(" \o ToDec(n) \o ")"

Checksum(ent) == ByteAt(SHA256(ent), 0) \div (2 ^ (8 - CsLen(8 * BLen(ent))))
\* entropy followed by the leading checksum bits, as 11-bit indices
ToWords(ent) == LET n == WordsOfBits(8 * BLen(ent)) IN Unpack11(ent \o SHA256(ent), n)
\* indices back to entropy and the checksum they carry
EntOf(ws) == SubSeq(Pack11Hex(ws), 1, 2 * (BitsOfWords(Len(ws)) \div 8))
CsOf(ws) == LET b == PackedBits(ws) IN NumOfBits(SubSeq(b, BitsOfWords(Len(ws)) + 1, Len(b)))
ChecksumOk(ws) == CsOf(ws) = Checksum(EntOf(ws))

Space == "20"
RECURSIVE Join(_)
Join(ws) == IF Len(ws) = 0 THEN "" ELSE IF Len(ws) = 1 THEN ws[1]
            ELSE LET m == Len(ws) \div 2 IN Join(SubSeq(ws, 1, m)) \o Space \o Join(SubSeq(ws, m + 1, Len(ws)))
Phrase(l, ws) == Join([i \in 1..Len(ws) |-> WordList(l)[ws[i] + 1]])
SplitWords(t) == LET p == Split(Text(t), " ") IN [i \in 1..Len(p) |-> Utf8(p[i])]

NotFound(w) == "LanguageError(MnemonicWordNotFoundInDictionary(x" \o w \o "))"
\* what is wrong with a phrase; a fault-free phrase is accepted
PhraseFaults(l, t) ==
  LET w == SplitWords(t)
  IN {NotFound(x) : x \in {w[i] : i \in {j \in 1..Len(w) : ~InDict(l, w[j])}}}
     \cup (IF Len(w) \notin Counts THEN {CountErr(Len(w))} ELSE {})
PhraseWords(l, t) == LET w == SplitWords(t) IN [i \in 1..Len(w) |-> Pos(l, w[i])]
\* "mnemonic"
PhraseSeed(t, pass) == PBKDF2(t, "6d6e656d6f6e6963" \o pass, 2048, 64)
=============================================================================
