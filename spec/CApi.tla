-------------------------------- MODULE CApi --------------------------------
(***************************************************************************)
(* C18, C19: the C interface.  A call made through C carries e.cx:          *)
(*   ret            what the function returned                             *)
(*   outw, errw     whether the result and the error parameter changed     *)
(*   code, msg      the error it wrote                                     *)
(*   val            the value it wrote, in the shape of the Rust outcome   *)
(*   obj            handle of the object handed out ("" for plain values)  *)
(*   new, freed     blocks left allocated by the call / older ones it freed*)
(*   mis            blocks released with another size or alignment         *)
(*   inmod          whether it changed its input buffers                   *)
(***************************************************************************)
EXTENDS Bytes

Codes == [WrongPassword |-> 0, NotEnoughData |-> 1, SeedIsNotSaved |-> 2, CantCalculateSeedSize |-> 3, DataError |-> 4,
          InvalidSeedSize |-> 5, KeyDoesNotExist |-> 6, KeyAlreadyExist |-> 7, NetworkIsNotSupported |-> 8, KeyError |-> 9,
          KeyPathError |-> 10, MnemonicError |-> 11]
PanicCode == -1
\* the variant is the text before the first parenthesis
IsHead(n, e) == IF Len(e) = Len(n) THEN e = n
                ELSE IF Len(e) > Len(n) THEN SubSeq(e, 1, Len(n) + 1) = n \o "(" ELSE FALSE
HeadOf(e) == CHOOSE n \in DOMAIN Codes : IsHead(n, e)
\* a NUL in a message appears as the two characters \0
RECURSIVE EscNul(_, _)
EscNul(h, i) == IF i > BLen(h) THEN "" ELSE (IF Sub(h, i - 1, i) = "00" THEN "5c30" ELSE Sub(h, i - 1, i)) \o EscNul(h, i + 1)
HasNul(h) == \E i \in 0..(BLen(h) - 1) : Sub(h, i, i + 1) = "00"
Escaped(h) == IF HasNul(h) THEN EscNul(h, 1) ELSE h

\* path constructors and the parser report their error wrapped as a key path error
TopError(e) == IF e.op \in {"kp.parse", "kp.make"} THEN "KeyPathError" ELSE HeadOf(e.r.e)

Clean(c) == c.mis = 0 /\ ~c.inmod
\* what the call says must be what Rust says; one output only; nothing kept but what is handed out
Faithful(e) ==
  /\ Clean(e.cx)
  /\ e.cx.ret = (e.r.k = "ok")
  /\ e.cx.outw = e.cx.ret /\ e.cx.errw = ~e.cx.ret
  /\ IF e.cx.ret THEN (e.cx.obj = "" => e.cx.new = 0) /\ (e.cx.obj # "" => e.cx.new > 0 \/ e.cx.empty)
     ELSE /\ e.cx.new > 0
          /\ IF e.r.k = "panic" THEN e.cx.code = PanicCode
             ELSE e.cx.code = Codes[TopError(e)] /\ e.cx.msg = Escaped(e.rm)
\* invalid handles, texts that are not UTF-8
FaithfulPanic(e) == Clean(e.cx) /\ ~e.cx.ret /\ ~e.cx.outw /\ e.cx.errw /\ e.cx.code = PanicCode /\ e.cx.new > 0
=============================================================================
