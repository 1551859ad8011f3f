------------------------------- MODULE ClientMC -------------------------------
(***************************************************************************)
(* C18, C19: a client of the C interface.  It owns a slot for every object *)
(* it may hold, calls functions whose objects land in a free slot, and     *)
(* gives objects back in any order - the manager before the keychains it   *)
(* opened, the data before the keychain that came from it, errors late or  *)
(* early, and null objects at any time.                                    *)
(*                                                                         *)
(* The heap is a set of blocks.  A call that succeeds allocates the blocks *)
(* of its result and nothing else; one that fails, those of its error.     *)
(* A deletion releases the blocks of its object one after the other, and   *)
(* in between no block may be released twice.                              *)
(***************************************************************************)
EXTENDS CApi, Json, TLC

CONSTANTS Slots      \* names of slots; the first letter tells the kind
KindOf(s) == CASE SubSeq(s, 1, 1) = "m" -> "mgr" [] SubSeq(s, 1, 1) = "k" -> "kc" [] SubSeq(s, 1, 1) = "d" -> "data" [] SubSeq(s, 1, 1) = "s" -> "str"
               [] SubSeq(s, 1, 1) = "n" -> "nets" [] SubSeq(s, 1, 1) = "b" -> "backup" [] SubSeq(s, 1, 1) = "i" -> "mnem" [] OTHER -> "err"
OfKind(k) == {s \in Slots : KindOf(s) = k}
\* blocks of an object, in the order they are released: contents before what lists them
BlocksOf(s) == LET n == CASE KindOf(s) = "backup" -> 4 [] KindOf(s) = "mgr" -> 3 [] KindOf(s) = "kc" -> 3 [] OTHER -> 1
               IN {<<s, i>> : i \in 1..n}

\* functions: who has to be there, the kind of the result ("" - a plain value), the ways to fail
F(op, needs, gives, fails) == [op |-> op, needs |-> needs, gives |-> gives, fails |-> fails]
Opening == {"WrongPassword", "NotEnoughData"}
Reading == Opening \cup {"DataError"}
Functions == {
  F("mgr.new", "none", "mgr", {}),
  F("mgr.has", "mgr", "", {}),
  F("mgr.gen", "mgr", "str", {}),
  F("mgr.seed", "mgr", "data", {"InvalidSeedSize"}),
  F("mgr.mnem", "mgr", "data", {"MnemonicError"}),
  F("mgr.chpw", "mgr", "data", Opening),
  F("mgr.add", "mgr", "data", Reading \cup {"KeyAlreadyExist", "NetworkIsNotSupported", "SeedIsNotSaved"}),
  F("mgr.open", "mgr", "kc", Reading \cup {"KeyError"}),
  F("mgr.keys", "mgr", "backup", Reading),
  F("mgr.retr", "mgr", "mnem", Reading \cup {"SeedIsNotSaved"}),
  F("kc.nets", "kc", "nets", {}),
  F("kc.pub", "kc", "data", {"KeyDoesNotExist", "KeyError"}),
  F("kc.sign", "kc", "data", {"KeyDoesNotExist", "KeyError"}),
  F("kc.verify", "kc", "", {"KeyDoesNotExist", "KeyError"}),
  F("kp.parse", "none", "", {"KeyPathError"}),
  F("kp.make", "none", "", {"KeyPathError"}) }
\* invalid arguments: null handles, texts that are not UTF-8
Bad == {<<"mgr.has", "null">>, <<"mgr.gen", "null">>, <<"kc.nets", "null">>, <<"kc.pub", "null">>, <<"kc.sign", "null">>, <<"kc.verify", "null">>,
        <<"kp.parse", "text">>}
       \cup {<<c, h>> : c \in {"mgr.seed", "mgr.mnem", "mgr.mnem.pw", "mgr.open", "mgr.add", "mgr.chpw", "mgr.chpw.new", "mgr.keys", "mgr.retr"}, h \in {"null", "text"}}

\* what a client sees of a call
Says(code) == [ret |-> code = "ok", outw |-> code = "ok", errw |-> code # "ok", code |-> IF code = "ok" THEN -2 ELSE IF code = "panic" THEN PanicCode ELSE Codes[code]]

VARIABLES live, heap, going     \* slots in use, blocks, and the slot whose object is being released
vars == <<live, heap, going>>
Init == live = {} /\ heap = {} /\ going = ""
Emit(a) == PrintT("EDGE " \o ToJson([f |-> live, a |-> a, t |-> live']))

Has(needs) == IF needs = "none" THEN {""} ELSE OfKind(needs) \cap live
Fill(s) == live' = live \cup {s} /\ heap' = heap \cup BlocksOf(s) /\ UNCHANGED going
Ok == \E f \in Functions : \E on \in Has(f.needs) :
        IF f.gives = "" THEN UNCHANGED vars /\ Emit([do |-> f.op, on |-> on, to |-> "", code |-> "ok"])
        ELSE \E s \in OfKind(f.gives) \ live : Fill(s) /\ Emit([do |-> f.op, on |-> on, to |-> s, code |-> "ok"])
Fail == \E f \in Functions : \E on \in Has(f.needs) : \E c \in f.fails : \E s \in OfKind("err") \ live :
          Fill(s) /\ Emit([do |-> f.op, on |-> on, to |-> s, code |-> c])
\* texts need a manager beside them
BadCall == \E b \in Bad : \E on \in (IF b[2] = "text" /\ b[1] # "kp.parse" THEN Has("mgr") ELSE {""}) : \E s \in OfKind("err") \ live :
          Fill(s) /\ Emit([do |-> "bad", call |-> b[1], how |-> b[2], on |-> on, to |-> s, code |-> "panic"])
Null == \E k \in {"mgr", "kc", "data", "str", "nets", "backup", "mnem", "err"} : UNCHANGED vars /\ Emit([do |-> "null", to |-> k, code |-> "ok"])
\* giving back, block by block
Start == \E s \in live : going' = s /\ live' = live \ {s} /\ UNCHANGED heap /\ Emit([do |-> "del", to |-> s, code |-> "ok"])
Release == going # "" /\ LET left == {b \in heap : b[1] = going}
                             b == CHOOSE x \in left : \A y \in left : x[2] <= y[2]
                         IN /\ heap' = heap \ {b}
                            /\ going' = IF left = {b} THEN "" ELSE going
                            /\ UNCHANGED live
Next == IF going # "" THEN Release ELSE Ok \/ Fail \/ BadCall \/ Null \/ Start
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* nothing is lost: between calls the heap is what the live objects own
NoLeak == going = "" => heap = UNION {BlocksOf(s) : s \in live}
\* nothing is released that is still in use
NoDangling == \A s \in live : BlocksOf(s) \subseteq heap
\* an object under release still has something to release: each block goes once
Once == going # "" => going \notin live /\ \E b \in heap : b[1] = going
\* one output per call, and different failures are told apart
AllCodes == UNION {f.fails : f \in Functions} \cup {"ok", "panic"}
OneOutput == \A c \in AllCodes : LET s == Says(c) IN s.outw = s.ret /\ s.errw = ~s.ret
Distinct == \A c, d \in AllCodes : c # d => Says(c).code # Says(d).code
=============================================================================
