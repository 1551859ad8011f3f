-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Admission of single public calls that keep no state: e is a recorded    *)
(* call, e.r its outcome - [k |-> "ok", ...], [k |-> "err", e |-> text],   *)
(* [k |-> "panic"], [k |-> "crash"] or [k |-> "hang"].  Only "ok" and      *)
(* "err" can ever be admitted here (C25).                                  *)
(***************************************************************************)
EXTENDS KeyPathText, Bip39, Sealed, Hex

\* outcome against a set of admissible errors: any of them if there are some, success otherwise
Outcome(e, errs) == IF e.r.k = "ok" THEN errs = {}
                    ELSE IF e.r.k \in {"err", "panic"} THEN (IF e.r.k = "panic" THEN "panic" ELSE e.r.e) \in errs
                    ELSE FALSE
IsOk(e) == e.r.k = "ok"
Result(e, errs, good) == Outcome(e, errs) /\ (IsOk(e) => good)

-----------------------------------------------------------------------------
\* C14 - C17, C24: bip39
C_EntFrom(e) == Result(e, IF 8 * BLen(e.b) \in Sizes THEN {} ELSE {SizeErr(8 * BLen(e.b))},
                       IsOk(e) => /\ e.r.w = ToWords(e.b) /\ e.r.cs = Checksum(e.b) /\ e.r.b = e.b
                                  /\ e.r.n = WordsOfBits(8 * BLen(e.b)))
WordFaults(w) == {"MnemonicOutOfBound(" \o ToDec(w[i]) \o ")" : i \in {j \in 1..Len(w) : w[j] > 2047}}
                 \cup (IF Len(w) \notin Counts THEN {CountErr(Len(w))} ELSE {})
CsFault(w) == IF WordFaults(w) # {} THEN {} ELSE IF ChecksumOk(w) THEN {}
              ELSE {"InvalidChecksum(" \o ToDec(Checksum(EntOf(w))) \o "," \o ToDec(CsOf(w)) \o ")"}
C_WordsEnt(e) == Result(e, WordFaults(e.w) \cup CsFault(e.w), IsOk(e) => e.r.b = EntOf(e.w))
\* a raw index above 2047 given without the checked constructor keeps its low 11 bits or is refused
C_PhraseMake(e) == IsOk(e) /\ e.r.t = Phrase(e.lang, ToWords(e.b))
C_PhraseParse(e) == Result(e, PhraseFaults(e.lang, e.t), IsOk(e) => e.r.w = PhraseWords(e.lang, e.t) /\ e.r.t = e.t)
C_PhraseSeed(e) == Result(e, PhraseFaults(e.lang, e.t), IsOk(e) => e.r.b = PhraseSeed(e.t, e.pass))
C_SeedFrom(e) == Result(e, IF BLen(e.b) = 64 THEN {} ELSE {"InvalidSeedSize(" \o ToDec(BLen(e.b)) \o ")"}, IsOk(e) => e.r.b = e.b)
TypeOk(r, n) == r.words = n /\ r.bits = BitsOfWords(n) /\ r.cs = n \div 3 /\ r.t = ToDec(n)
C_TypeWords(e) == Result(e, IF e.n \in Counts THEN {} ELSE {CountErr(e.n)}, IsOk(e) => TypeOk(e.r, e.n))
C_TypeBits(e) == Result(e, IF e.n \in Sizes THEN {} ELSE {SizeErr(e.n)}, IsOk(e) => TypeOk(e.r, WordsOfBits(e.n)))
CountText == {ToDec(n) : n \in Counts}
C_TypeStr(e) == IF \E n \in Counts : Utf8(ToDec(n)) = e.t
                THEN IsOk(e) /\ TypeOk(e.r, CHOOSE n \in Counts : Utf8(ToDec(n)) = e.t)
                ELSE e.r.k = "err"
C_DictWord(e) == Result(e, IF e.i < 2048 THEN {} ELSE {"MnemonicWordNotFoundInDictionary(x" \o Utf8(ToDec(e.i)) \o ")"},
                        IsOk(e) => e.r.t = WordList(e.lang)[e.i + 1])
C_DictIndex(e) == Result(e, IF InDict(e.lang, e.t) THEN {} ELSE {"MnemonicWordNotFoundInDictionary(x" \o e.t \o ")"},
                         IsOk(e) => e.r.i = Pos(e.lang, e.t))
C_DictInfo(e) == IsOk(e) /\ e.r.name = DictName[e.lang] /\ e.r.sep = Space /\ e.r.count = 2048
C_DictAll(e) == IsOk(e) /\ e.r.words = WordList(e.lang)
\* generation: the whole buffer of the right size is asked for, once or in pieces, and becomes the entropy
C_EntGen(e) == IsOk(e) /\ e.r.b = e.fill /\ BLen(e.r.b) = BitsOfWords(e.n) \div 8
C_BitsWrite(e) == IsOk(e) /\ e.r.b = Pack11Hex(e.v)
C_BitsRead(e) ==
  IsOk(e) /\ LET n == Count11(BLen(e.b), 0)
             IN /\ e.r.v = Unpack11(e.b, n)
                /\ e.r.s = [i \in 1..(n + 1) |-> Count11(BLen(e.b), i - 1)]
C_HexEnc(e) == IsOk(e) /\ e.r.t = HexOf(HexEncode(BytesOf(e.b)))
C_HexDec(e) == LET t == BytesOf(e.t)  f == FirstForeign(t)
               IN Result(e, IF f = -1 THEN {} ELSE {"UnknownSymbol(" \o ToDec(f) \o ")"}, IsOk(e) => e.r.b = HexOf(HexDecode(t)))

-----------------------------------------------------------------------------
\* C08, C11, C21: extended secp256k1 keys
C_XprvSeed(e) == IsOk(e) /\ e.r.d = Serial(Master(e.seed)) /\ e.r.p = PubOf(Master(e.seed))
C_XprvLoad(e) == Result(e, SerialFaults(e.d), IsOk(e) => e.r.d = e.d /\ e.r.p = PubOf(Unserial(e.d))
                                                        /\ e.r.pc = Compress(PubOf(Unserial(e.d)))
                                                        /\ e.r.h = SHA256(PubOf(Unserial(e.d)))
                                                        /\ e.r.hc = SHA256(Compress(PubOf(Unserial(e.d)))))
RECURSIVE Chain(_, _)
Chain(x, path) == IF path = <<>> THEN <<>> ELSE LET y == Child(x, Head(path)) IN <<Serial(y)>> \o Chain(y, Tail(path))
Room(x, path) == 255 - ByteAt(x.d, 0)
C_XprvDerive(e) == LET x == Unserial(e.d)
                   IN IF Len(e.path) > Room(x, e.path) THEN e.r.k = "err" /\ e.r.e = "DeriveDepthTooBig"
                      ELSE IsOk(e) /\ e.r.chain = Chain(x, e.path)
C_XprvSign(e) == IsOk(e) /\ e.r.s = SignMsg(Unserial(e.d), e.m)
C_XprvVerify(e) == Result(e, IF BLen(e.s) \in SigSizes THEN {} ELSE {"InvalidSignature(" \o ToDec(BLen(e.s)) \o ",64)"},
                          IsOk(e) => e.r.v = VerifyMsg(PubOf(Unserial(e.d)), e.m, e.s))

-----------------------------------------------------------------------------
\* C12, C13: key paths
C_KpParse(e) == LET t == Chars(Text(e.t))
                    f == ParseFaults(t)
                IN Result(e, f, IsOk(e) => /\ e.r.p = ParsePath(t)
                                           /\ e.r.t = Utf8(PrintPath(e.r.p))        \* printing
                                           /\ e.r.p2 = e.r.p /\ e.r.t2 = e.r.t)     \* parsing the print, printing again
C_KpMake(e) == Result(e, MakeFaults(e.fn, e.a, e.c, e.d), IsOk(e) => e.r.p = MakePath(e.fn, e.testnet, e.a, e.c, e.d))

-----------------------------------------------------------------------------
\* C01, C03: direct sealing and opening
\* the bytes drawn (dr, in order of the requests) make up salt and nonce, each drawn byte used once
Distinct(h) == Cardinality({ByteAt(h, i) : i \in 0..(BLen(h) - 1)}) = BLen(h)
C_Seal(e) == /\ IsOk(e) /\ BLen(e.r.b) = BLen(e.pt) + MetaSize
             /\ OpenWith(e.pw, e.r.b) = [e |-> "", pt |-> e.pt]
             /\ e.custom => LET u == Sub(e.r.b, 0, 44)
                            IN Distinct(u) /\ {ByteAt(u, i) : i \in 0..43} \subseteq {ByteAt(e.r.dr, i) : i \in 0..(BLen(e.r.dr) - 1)}
C_Open(e) == LET o == OpenWith(e.pw, e.b) IN Result(e, IF o.e = "" THEN {} ELSE {o.e}, IsOk(e) => e.r.pt = o.pt)

CallOps == {"ent.from", "words.ent", "phrase.make", "phrase.parse", "phrase.seed", "seed.from", "type.words", "type.bits",
  "type.str", "dict.word", "dict.index", "dict.info", "dict.all", "ent.gen", "bits.write", "bits.read", "hex.enc", "hex.dec",
  "xprv.seed", "xprv.load", "xprv.derive", "xprv.sign", "xprv.verify", "kp.parse", "kp.make", "seal", "open"}
CallOk(e) ==
  CASE e.op = "ent.from" -> C_EntFrom(e)
    [] e.op = "words.ent" -> C_WordsEnt(e)
    [] e.op = "phrase.make" -> C_PhraseMake(e)
    [] e.op = "phrase.parse" -> C_PhraseParse(e)
    [] e.op = "phrase.seed" -> C_PhraseSeed(e)
    [] e.op = "seed.from" -> C_SeedFrom(e)
    [] e.op = "type.words" -> C_TypeWords(e)
    [] e.op = "type.bits" -> C_TypeBits(e)
    [] e.op = "type.str" -> C_TypeStr(e)
    [] e.op = "dict.word" -> C_DictWord(e)
    [] e.op = "dict.index" -> C_DictIndex(e)
    [] e.op = "dict.info" -> C_DictInfo(e)
    [] e.op = "dict.all" -> C_DictAll(e)
    [] e.op = "ent.gen" -> C_EntGen(e)
    [] e.op = "bits.write" -> C_BitsWrite(e)
    [] e.op = "bits.read" -> C_BitsRead(e)
    [] e.op = "hex.enc" -> C_HexEnc(e)
    [] e.op = "hex.dec" -> C_HexDec(e)
    [] e.op = "xprv.seed" -> C_XprvSeed(e)
    [] e.op = "xprv.load" -> C_XprvLoad(e)
    [] e.op = "xprv.derive" -> C_XprvDerive(e)
    [] e.op = "xprv.sign" -> C_XprvSign(e)
    [] e.op = "xprv.verify" -> C_XprvVerify(e)
    [] e.op = "kp.parse" -> C_KpParse(e)
    [] e.op = "kp.make" -> C_KpMake(e)
    [] e.op = "seal" -> C_Seal(e)
    [] e.op = "open" -> C_Open(e)
=============================================================================
