-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks a recorded history of the real code against the specification.   *)
(* Every line is one public call with its arguments and outcome.  The      *)
(* state is the specification's own: what each handle stands for follows   *)
(* from the calls so far, never from what the code claims.                 *)
(***************************************************************************)
EXTENDS World, CApi, Wipe, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,       \* next line
  mgrs,    \* managers by handle
  store,   \* keychain data by handle: items, or raw bytes of unknown origin
  kcs,     \* opened keychains by handle
  used,    \* 8-byte pieces of all randomness seen so far
  drawn,   \* [os, need, pool]: how many random bytes were taken from the system, how many the calls needed,
           \* and by value how many of those taken are left (<<>>: no longer known)
  ones,    \* for every salt and nonce bit: [n, seen] - samples, and the values seen at each position
  objs,    \* objects handed out through the C interface: blocks of memory by handle
  copies,  \* secrets alive (C20)
  ends     \* for every kind of secret and of its end: the places in memory that kept their bytes so far
vars == <<l, mgrs, store, kcs, used, drawn, ones, objs, copies, ends>>

Put(f, h, x) == (h :> x) @@ f
Item(h, pw) == IF store[h].st = "raw" THEN RawItem(store[h].b, pw) ELSE store[h]
AsSet(s) == {s[i] : i \in 1..Len(s)}
SameSet(seq, S) == Len(seq) = Cardinality(S) /\ AsSet(seq) = S
Mgr(e) == mgrs[e.id]

-----------------------------------------------------------------------------
\* managers
FactsOf(e) == IF e.how = "facts" THEN e.f
              ELSE LET ns == IF e.how = "all" THEN <<BTC, ETH, ADA>> ELSE SelectSeq(<<BTC, ETH, ADA>>, LAMBDA n : n \in AsSet(e.nets))
                   IN [i \in 1..Len(ns) |-> Std(ns[i])]
MgrErrs(fs) == IF ~Refused(fs) THEN {}
               ELSE {"CantCalculateSeedSize(" \o ToDec(MinBits(fs)) \o "," \o (IF fs = <<>> THEN UsizeMax ELSE ToDec(MaxBits(fs))) \o ")"}
T_New(e) == Outcome(e, MgrErrs(FactsOf(e)))
T_Has(e) == IsOk(e) /\ e.r.v = (e.net \in DOMAIN Mgr(e).nets)
T_Fac(e) == /\ IsOk(e) /\ e.r.has = (e.net \in DOMAIN Mgr(e).nets)
            /\ e.r.has => LET f == Mgr(e).nets[e.net]
                          IN e.r.net = e.net /\ e.r.min = f.min /\ e.r.max = f.max
                             /\ e.r.minw = (f.min \div 32) * 3 /\ e.r.maxw = (f.max \div 32) * 3
T_NetAll(e) == IsOk(e) /\ SameSet(e.r.nets, BuiltIn)

GenErrs(m) == IF m.bits \in Sizes THEN {} ELSE {"MnemonicError(InvalidEntropySize(" \o ToDec(m.bits) \o "))"}
\* a generated phrase: words of the language, of the manager's size, with a right checksum
PhraseOk(m, lang, t) == PhraseFaults(lang, t) = {} /\ LET w == PhraseWords(lang, t) IN Len(w) = m.words /\ ChecksumOk(w)
T_Gen(e) == Result(e, GenErrs(Mgr(e)), IsOk(e) => PhraseOk(Mgr(e), e.lang, e.r.t))

\* the same call many times over
T_Many(e) == IF e.what = "gen" THEN Result(e, GenErrs(Mgr(e)), IsOk(e) => Len(e.r.bs) = e.n /\ \A i \in 1..e.n : PhraseOk(Mgr(e), e.lang, e.r.bs[i]))
             ELSE LET o == V!FromSeed(Mgr(e), e.seed)
                  IN Result(e, o.errs, IsOk(e) => /\ Len(e.r.bs) = e.n
                                                  /\ \A i \in 1..e.n : BLen(e.r.bs[i]) = BLen(e.r.bs[1])
                                                  /\ \A i \in {1, e.n} : SealedDoc(e.r.bs[i], e.pw, o.doc))

\* keychain data
O_FromSeed(e) == V!FromSeed(Mgr(e), e.seed)
T_FromSeed(e) == LET o == O_FromSeed(e) IN Result(e, o.errs, IsOk(e) => SealedDoc(e.r.b, e.pw, o.doc))
O_FromMnem(e) == V!FromMnemonic(Mgr(e), e.t, e.lang)
T_FromMnem(e) == LET o == O_FromMnem(e) IN Result(e, o.errs, IsOk(e) => SealedDoc(e.r.b, e.pw, o.doc))
NewItem(pw, doc) == [st |-> "sealed", pw |-> PwKey(pw), doc |-> doc, pay |-> ""]
T_ChPw(e) == LET it == Item(e.in, e.pw)
                 o == V!ChangePassword(it, PwKey(e.pw), PwKey(e.npw))
                 \* unreadable content may be carried over or refused
                 errs == IF o.errs = {} /\ ~it.doc.ok /\ ~IsOk(e) THEN {"DataError"} ELSE o.errs
             IN Result(e, errs, IsOk(e) => SealedSame(e.r.b, e.npw, it))
O_Add(e) == V!AddNetwork(Mgr(e), Item(e.in, e.pw), PwKey(e.pw), e.net)
T_Add(e) == LET o == O_Add(e) IN Result(e, o.errs, IsOk(e) => SealedDoc(e.r.b, e.pw, o.item.doc))
O_Open(e) == V!Open(Mgr(e), Item(e.in, e.pw), PwKey(e.pw))
T_Open(e) == LET o == O_Open(e) IN Result(e, o.errs, IsOk(e) => SameSet(e.r.nets, DOMAIN o.kc))
T_Keys(e) == LET o == V!KeysData(Item(e.in, e.pw), PwKey(e.pw))
             IN Result(e, o.errs, IsOk(e) => SameSet([i \in 1..Len(e.r.keys) |-> <<e.r.keys[i].n, e.r.keys[i].b>>], {<<n, o.keys[n]>> : n \in DOMAIN o.keys}))
T_Retr(e) == LET o == V!Mnemonic(Item(e.in, e.pw), PwKey(e.pw)) IN Result(e, o.errs, IsOk(e) => e.r.t = o.text /\ e.r.lang = o.lang)

\* keychains and factories
T_Nets(e) == IsOk(e) /\ SameSet(e.r.nets, DOMAIN kcs[e.kc])
T_KHas(e) == IsOk(e) /\ e.r.v = (e.net \in DOMAIN kcs[e.kc])
\* a path object of the caller's may panic when it is read: every part is read before there is an answer
KeyErrs(e) == K_Errs(kcs[e.kc], e.net, e.p) \cup (IF "boom" \in DOMAIN e THEN {"panic"} ELSE {})
T_Pub(e) == Result(e, KeyErrs(e), IsOk(e) => e.r.b = K_Pub(kcs[e.kc][e.net], e.net, e.p))
T_Sign(e) == Result(e, KeyErrs(e), IsOk(e) => e.r.b = K_Sign(kcs[e.kc][e.net], e.net, e.p, e.m))
T_Verify(e) == Result(e, KeyErrs(e) \cup K_SigErrs(kcs[e.kc], e.net, e.s),
                      IsOk(e) => e.r.v = K_Verify(kcs[e.kc][e.net], e.net, e.p, e.m, e.s))
SeedLenErr(n) == "InvalidMnemonic(UnknownError(InvalidSeedSize(" \o ToDec(n) \o ")))"
T_FKey(e) == Result(e, IF BLen(e.seed) = 64 THEN {} ELSE {SeedLenErr(BLen(e.seed))}, IsOk(e) => e.r.b = KeyData(e.net, e.seed))
T_FLoad(e) == Result(e, DataFaults(e.net, e.b), IsOk(e) => e.r.net = e.net)

Admit(e) ==
  CASE e.op \in CallOps -> CallOk(e)
    [] e.op = "mgr.new" -> T_New(e)
    [] e.op = "mgr.has" -> T_Has(e)
    [] e.op = "mgr.fac" -> T_Fac(e)
    [] e.op = "net.all" -> T_NetAll(e)
    [] e.op = "mgr.gen" -> T_Gen(e)
    [] e.op = "many" -> T_Many(e)
    [] e.op = "mgr.seed" -> T_FromSeed(e)
    [] e.op = "mgr.mnem" -> T_FromMnem(e)
    [] e.op = "mgr.chpw" -> T_ChPw(e)
    [] e.op = "mgr.add" -> T_Add(e)
    [] e.op = "mgr.open" -> T_Open(e)
    [] e.op = "mgr.keys" -> T_Keys(e)
    [] e.op = "mgr.retr" -> T_Retr(e)
    [] e.op = "put" -> TRUE
    [] e.op = "kc.nets" -> T_Nets(e)
    [] e.op = "kc.has" -> T_KHas(e)
    [] e.op = "kc.pub" -> T_Pub(e)
    [] e.op = "kc.sign" -> T_Sign(e)
    [] e.op = "kc.verify" -> T_Verify(e)
    [] e.op = "fac.key" -> T_FKey(e)
    [] e.op = "fac.load" -> T_FLoad(e)
    [] OTHER -> FALSE

MgrsAfter(e) == IF e.op = "mgr.new" /\ IsOk(e) THEN Put(mgrs, e.id, Manager(FactsOf(e))) ELSE mgrs
StoreAfter(e) ==
  CASE e.op = "put" -> Put(store, e.out, [st |-> "raw", b |-> e.b])
    [] e.op = "mgr.seed" /\ IsOk(e) -> Put(store, e.out, NewItem(e.pw, O_FromSeed(e).doc))
    [] e.op = "mgr.mnem" /\ IsOk(e) -> Put(store, e.out, NewItem(e.pw, O_FromMnem(e).doc))
    [] e.op = "mgr.chpw" /\ IsOk(e) -> Put(store, e.out, [Item(e.in, e.pw) EXCEPT !.pw = PwKey(e.npw)])
    [] e.op = "mgr.add" /\ IsOk(e) -> Put(store, e.out, NewItem(e.pw, O_Add(e).item.doc))
    [] OTHER -> store
KcsAfter(e) == IF e.op = "mgr.open" /\ IsOk(e) THEN Put(kcs, e.kc, O_Open(e).kc) ELSE kcs

-----------------------------------------------------------------------------
\* what C saw of a call
IsC(e) == "cx" \in DOMAIN e
CVal(e) == IF e.cx.ret THEN e.cx.val ELSE [k |-> "err"]

\* C02: randomness
Sealings == {"mgr.seed", "mgr.mnem", "mgr.chpw", "mgr.add", "seal"}
Overlap(b) == IF BLen(b) % 8 = 0 THEN <<>> ELSE <<Sub(b, BLen(b) - 8, BLen(b))>>
Pieces(b) == [i \in 1..(BLen(b) \div 8) |-> Sub(b, 8 * (i - 1), 8 * i)] \o Overlap(b)
SealPieces(b) == Pieces(SaltOf(b)) \o Pieces(NonceOf(b))
\* pieces of things of one size in one sequence
Spread(ps) == LET k == Len(ps[1]) IN TLCEval([i \in 1..(k * Len(ps)) |-> ps[(i - 1) \div k + 1][((i - 1) % k) + 1]])
Random(e, r) == IF r.k # "ok" THEN <<>>
                ELSE IF e.op \in Sealings THEN (IF e.op = "seal" /\ e.custom THEN <<>> ELSE SealPieces(r.b))
                ELSE IF e.op = "mgr.gen" THEN Pieces(EntOf(PhraseWords(e.lang, r.t)))
                ELSE IF e.op = "many" THEN Spread(TLCEval([i \in 1..e.n |-> TLCEval(IF e.what = "gen" THEN Pieces(EntOf(PhraseWords(e.lang, r.bs[i]))) ELSE SealPieces(r.bs[i]))]))
                ELSE <<>>
Need(e, r) == IF r.k # "ok" THEN 0
              ELSE IF e.op \in Sealings THEN (IF e.op = "seal" /\ e.custom THEN 0 ELSE 44)
              ELSE IF e.op = "mgr.gen" THEN mgrs[e.id].bits \div 8
              ELSE IF e.op = "many" THEN e.n * (IF e.what = "gen" THEN mgrs[e.id].bits \div 8 ELSE 44) ELSE 0
Fresh(ps) == Cardinality(AsSet(ps)) = Len(ps) /\ AsSet(ps) \cap used = {}
\* a buffered source may draw ahead, never behind
Os(e) == IF "os" \in DOMAIN e THEN e.os ELSE 0
DrawnEnough == drawn.os >= drawn.need
\* and what is used is what the system gave, not made up or altered: in whatever order, portions or time ahead
Needed(e, r) == IF Need(e, r) = 0 THEN "" ELSE IF e.op = "mgr.gen" THEN EntOf(PhraseWords(e.lang, r.t)) ELSE SaltOf(r.b) \o NonceOf(r.b)
Rb(e) == IF "rb" \in DOMAIN e THEN e.rb ELSE ""
RECURSIVE AddTo(_, _, _, _)
AddTo(p, bs, i, d) == IF i > Len(bs) THEN p ELSE AddTo([p EXCEPT ![bs[i]] = @ + d], bs, i + 1, d)
\* several threads, or a great many calls: who drew for whom is not recorded
Together(e) == e.op = "many" \/ "th" \in DOMAIN e
PoolAfter(e) == IF drawn.pool = <<>> \/ (Together(e) /\ Os(e) > 0) THEN <<>>
                ELSE LET given == Rb(e)
                         taken == Needed(e, e.r) \o (IF IsC(e) THEN Needed(e, CVal(e)) ELSE "")
                     IN IF given = "" /\ taken = "" THEN drawn.pool
                        ELSE AddTo(TLCEval(AddTo(drawn.pool, TLCEval(BytesOf(given)), 1, 1)), TLCEval(BytesOf(taken)), 1, -1)
GivenBySystem == drawn.pool # <<>> => \A v \in 0..255 : drawn.pool[v] >= 0
\* no bit of a salt or nonce is constant: after 64 samples both values have been seen everywhere
Head44(e, r) == IF r.k = "ok" /\ e.op \in Sealings /\ ~(e.op = "seal" /\ e.custom) THEN <<Sub(r.b, 0, 44)>> ELSE <<>>
Note(o, h) == [n |-> o.n + 1, zero |-> [i \in 1..352 |-> o.zero[i] \/ BitAt(h, i - 1) = 0], one |-> [i \in 1..352 |-> o.one[i] \/ BitAt(h, i - 1) = 1]]
NoteAll(o, hs) == IF hs = <<>> \/ o.n >= 64 THEN o ELSE IF Len(hs) = 1 THEN Note(o, hs[1]) ELSE Note(Note(o, hs[1]), hs[2])
BitsVary == ones.n >= 64 => \A i \in 1..352 : ones.zero[i] /\ ones.one[i]

-----------------------------------------------------------------------------
AsC(e) == [e EXCEPT !.r = e.cx.val]
ObjsAfter(e) == IF ~IsC(e) THEN objs
                ELSE LET h == IF e.cx.ret THEN e.cx.obj ELSE e.cx.err IN IF h = "" THEN objs ELSE Put(objs, h, e.cx.new)

\* C23: while the system refuses random bytes (e.rf), a call that needs some may give up - and only that call
NoRandomness(e) == "rf" \in DOMAIN e /\ e.r.k = "panic" /\ e.op \in Sealings \cup {"mgr.gen"}
\* replayed from a model: the model's outcome (VaultMC: the error variants; elsewhere "ok" or "err")
AsPlanned(e) == /\ "sym" \in DOMAIN e => IF IsOk(e) THEN e.sym = <<>> ELSE e.r.k = "err" /\ HeadOf(e.r.e) \in AsSet(e.sym)
                /\ "plan" \in DOMAIN e => e.r.k = e.plan
Known == \* an ordinary call, through Rust or through C
  LET e == Events[l]
      rs == Random(e, e.r) \o (IF IsC(e) THEN Random(e, CVal(e)) ELSE <<>>)
  IN /\ e.op \notin {"reset", "c.del", "c.null", "c.bad", "c.end", "wipe.new", "wipe.clone", "wipe.read", "wipe.drop", "wipe.dead"}
     /\ (Admit(e) \/ NoRandomness(e))
     /\ AsPlanned(e)
     /\ IsC(e) => Faithful(e) /\ (e.cx.ret => Admit(AsC(e)))
     /\ Fresh(rs)
     /\ used' = used \cup AsSet(rs)
     /\ drawn' = [os |-> drawn.os + Os(e), need |-> drawn.need + Need(e, e.r) + (IF IsC(e) THEN Need(e, CVal(e)) ELSE 0),
                   pool |-> TLCEval(PoolAfter(e))]
     /\ ones' = NoteAll(ones, Head44(e, e.r) \o (IF IsC(e) THEN Head44(e, CVal(e)) ELSE <<>>))
     /\ mgrs' = MgrsAfter(e) /\ store' = StoreAfter(e) /\ kcs' = KcsAfter(e)
     /\ objs' = ObjsAfter(e)
     /\ UNCHANGED <<copies, ends>>
     /\ DrawnEnough' /\ GivenBySystem' /\ BitsVary'

\* C19: an object is given back: all its blocks, once, whole; the handle is cleared
Delete ==
  LET e == Events[l]
  IN /\ e.op = "c.del" /\ e.obj \in DOMAIN objs
     /\ e.r.k = "ok"
     /\ (objs[e.obj] > 0) = (e.cx.freed > 0) /\ e.cx.new = 0 /\ e.cx.mis = 0 /\ e.cx.again = 0 /\ e.cx.cleared
     /\ objs' = [h \in DOMAIN objs \ {e.obj} |-> objs[h]]
     /\ UNCHANGED <<mgrs, store, kcs, used, drawn, ones, copies, ends>>
\* deleting a null object
DeleteNull ==
  LET e == Events[l]
  IN /\ e.op = "c.null" /\ e.r.k = "ok"
     /\ e.cx.freed = 0 /\ e.cx.new = 0 /\ e.cx.mis = 0 /\ e.cx.cleared
     /\ UNCHANGED <<mgrs, store, kcs, used, drawn, ones, objs, copies, ends>>
\* calls with invalid handles or texts
BadCall ==
  LET e == Events[l]
  IN /\ e.op = "c.bad" /\ e.r.k = "ok" /\ FaithfulPanic(e)
     /\ objs' = Put(objs, e.cx.err, e.cx.new)
     /\ UNCHANGED <<mgrs, store, kcs, used, drawn, ones, copies, ends>>
\* the end of a history in which everything was given back
End ==
  LET e == Events[l]
  IN /\ e.op = "c.end" /\ e.r.k = "ok" /\ DOMAIN objs = {} /\ e.cx.live = 0 /\ e.cx.mis = 0
     /\ UNCHANGED <<mgrs, store, kcs, used, drawn, ones, objs, copies, ends>>
Wiping ==
  LET e == Events[l]
  IN /\ e.op \in {"wipe.new", "wipe.clone", "wipe.read", "wipe.drop", "wipe.dead"}
     /\ e.r.k = "ok" /\ WipeOk(copies, e)
     /\ copies' = IF e.op \in {"wipe.new", "wipe.clone"} THEN W_New(copies, e) ELSE IF e.op = "wipe.drop" THEN W_Drop(copies, e) ELSE copies
     /\ ends' = IF e.op \in {"wipe.drop", "wipe.dead"} THEN W_Note(ends, e) ELSE ends
     /\ NothingStays(ends')
     /\ UNCHANGED <<mgrs, store, kcs, used, drawn, ones, objs>>

\* a new history begins: other managers, other data
Reset == /\ Events[l].op = "reset"
         /\ mgrs' = <<>> /\ store' = <<>> /\ kcs' = <<>>
         /\ UNCHANGED <<used, drawn, ones, objs, copies, ends>>

\* C25 alone: whatever a call answers, it answers
Mode == IF "MODE" \in DOMAIN IOEnv THEN IOEnv.MODE ELSE "full"
Answered(e) == e.r.k \in {"ok", "err"}
Total == /\ Answered(Events[l])
         /\ UNCHANGED <<mgrs, store, kcs, used, drawn, ones, objs, copies, ends>>
Full == Known \/ Delete \/ DeleteNull \/ BadCall \/ End \/ Wiping \/ Reset

\* a crash or a call that never returned is never a behaviour
Returned(e) == e.r.k \notin {"crash", "hang"}
Step == /\ l <= Len(Events) /\ l' = l + 1
        /\ Returned(Events[l])
        /\ IF Mode = "total" THEN Total ELSE Full

Init == /\ l = 1 /\ mgrs = <<>> /\ store = <<>> /\ kcs = <<>> /\ used = {} /\ objs = <<>> /\ copies = <<>> /\ ends = <<>>
        /\ drawn = [os |-> 0, need |-> 0, pool |-> [v \in 0..255 |-> 0]]
        /\ ones = [n |-> 0, zero |-> [i \in 1..352 |-> FALSE], one |-> [i \in 1..352 |-> FALSE]]
Spec == Init /\ [][Step]_vars

Accepted == LET n == TLCGet("stats").diameter - 1
            IN /\ PrintT(<<"MATCHED", n, Len(Events)>>)
               /\ n = Len(Events)
=============================================================================
