-------------------------------- MODULE Vault --------------------------------
(***************************************************************************)
(* The life cycle of keychain data (C01, C02, C04 - C07).                  *)
(*                                                                         *)
(* Stored data is an item: [st, pw, doc] with st one of                    *)
(*   "sealed" - a payload under the password class pw; doc is what the     *)
(*              payload holds (doc.ok = FALSE: nothing readable)           *)
(*   "broken" - altered bytes: no password opens it                        *)
(*   "short"  - fewer bytes than the metadata needs                        *)
(* Every call is an operator from its arguments to [errs, ...]: the set of *)
(* admissible errors (empty: the call must succeed) and its result.        *)
(* VaultMC model checks these operators over symbolic secrets; Trace       *)
(* evaluates the very same ones on what the real code did.                 *)
(***************************************************************************)
EXTENDS Managers, TLC

CONSTANTS
  FKey(_, _),       \* factory, seed  -> [e, b]: error or key data
  FLoad(_, _),      \* factory, key data -> set of errors
  PhraseErrs(_, _, _),  \* language, phrase, words wanted -> set of errors
  PhraseToSeed(_),  \* phrase -> seed
  SeedErrs(_),      \* seed -> set of errors
  NetErr(_, _),     \* error name, network -> error
  KeyErr(_, _)      \* network, key error -> error

NoneV == <<"none">>
SomeV(x) == <<"some", x>>

Sealed(pw, doc) == [st |-> "sealed", pw |-> pw, doc |-> doc]

\* what opening an item with a password gives
OpenErrs(it, pw) == IF it.st = "short" THEN {"NotEnoughData"}
                    ELSE IF it.st = "broken" THEN {"WrongPassword"}
                    ELSE IF it.pw # pw THEN {"WrongPassword"} ELSE {}
DocErrs(it, pw) == LET e == OpenErrs(it, pw) IN IF e # {} THEN e ELSE IF ~it.doc.ok THEN {"DataError"} ELSE {}

MkErr(n, e) == IF e = "panic" THEN e ELSE KeyErr(n, e)
MakeErrs(m, seed) == UNION {LET k == FKey(m.nets[n], seed) IN IF k.e = "" THEN {} ELSE {MkErr(n, k.e)} : n \in DOMAIN m.nets}
MakeKeys(m, seed) == [n \in DOMAIN m.nets |-> FKey(m.nets[n], seed).b]

\* keychain data from a seed, from a mnemonic
FromSeed(m, seed) ==
  LET e == IF SeedErrs(seed) # {} THEN SeedErrs(seed) ELSE MakeErrs(m, seed)
  IN [errs |-> e,
      doc |-> IF e # {} THEN <<>> ELSE [ok |-> TRUE, ver |-> 2, seed |-> SomeV(seed), mnem |-> NoneV, dict |-> NoneV, keys |-> MakeKeys(m, seed)]]
FromMnemonic(m, text, lang) ==
  LET pe == PhraseErrs(lang, text, m.words)
      e == IF pe # {} THEN pe ELSE MakeErrs(m, PhraseToSeed(text))
  IN [errs |-> e,
      doc |-> IF e # {} THEN <<>> ELSE [ok |-> TRUE, ver |-> 2, seed |-> NoneV, mnem |-> SomeV(text), dict |-> SomeV(lang),
                                     keys |-> MakeKeys(m, PhraseToSeed(text))]]

\* opening: the keychain holds the factory and data of every stored network the manager knows
Common(m, doc) == DOMAIN m.nets \cap DOMAIN doc.keys
Open(m, it, pw) ==
  LET d == DocErrs(it, pw)
      k == IF d # {} THEN {} ELSE UNION {{MkErr(n, x) : x \in FLoad(m.nets[n], it.doc.keys[n])} : n \in Common(m, it.doc)}
  IN [errs |-> d \cup k,
      kc |-> IF d \cup k # {} THEN <<>> ELSE [n \in Common(m, it.doc) |-> [f |-> m.nets[n], b |-> it.doc.keys[n]]]]

\* re-encryption: the payload travels unread
ChangePassword(it, old, new) == [errs |-> OpenErrs(it, old), item |-> IF OpenErrs(it, old) # {} THEN it ELSE Sealed(new, it.doc)]

\* the seed a document still gives access to, for a manager
SecretErrs(m, doc) ==
  IF doc.seed # NoneV THEN SeedErrs(doc.seed[2])
  ELSE IF doc.mnem = NoneV \/ doc.dict = NoneV THEN {"SeedIsNotSaved"}
  ELSE PhraseErrs(doc.dict[2], doc.mnem[2], m.words)
SecretOf(doc) == IF doc.seed # NoneV THEN doc.seed[2] ELSE PhraseToSeed(doc.mnem[2])
AddNetwork(m, it, pw, n) ==
  LET known == n \in DOMAIN m.nets
      d == DocErrs(it, pw)
      present == d = {} /\ n \in DOMAIN it.doc.keys
      s == IF d # {} THEN {} ELSE SecretErrs(m, it.doc)
      k == IF known /\ d = {} /\ s = {} THEN FKey(m.nets[n], SecretOf(it.doc)) ELSE [e |-> "", b |-> ""]
      errs == (IF known THEN {} ELSE {NetErr("NetworkIsNotSupported", n)})
              \cup d \cup s
              \cup (IF present THEN {NetErr("KeyAlreadyExist", n)} ELSE {})
              \cup (IF k.e = "" THEN {} ELSE {MkErr(n, k.e)})
  IN [errs |-> errs,
      item |-> IF errs # {} THEN it
               ELSE Sealed(it.pw, [it.doc EXCEPT !.ver = 2, !.keys = @ @@ (n :> k.b)])]

\* backup
KeysData(it, pw) == [errs |-> DocErrs(it, pw), keys |-> IF DocErrs(it, pw) # {} THEN <<>> ELSE it.doc.keys]
Mnemonic(it, pw) ==
  LET d == DocErrs(it, pw)
      e == IF d # {} THEN d ELSE IF it.doc.mnem = NoneV \/ it.doc.dict = NoneV THEN {"SeedIsNotSaved"} ELSE {}
  IN [errs |-> e, text |-> IF e # {} THEN "" ELSE it.doc.mnem[2], lang |-> IF e # {} THEN "" ELSE it.doc.dict[2]]
=============================================================================
