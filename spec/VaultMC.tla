-------------------------------- MODULE VaultMC --------------------------------
(***************************************************************************)
(* The life cycle of keychain data over symbolic secrets, model checked:   *)
(* every item reachable by creating, adding networks, changing passwords,  *)
(* damage, or coming from elsewhere, under every call.  gh is a ghost: the *)
(* history's own account of what the item must hold, kept without looking  *)
(* at it.  The transitions are replayed against the real code (models.py). *)
(***************************************************************************)
EXTENDS Managers, Json, TLC

CONSTANTS Pws, Seeds, Full      \* Full: every combination; otherwise one password change per item

\* networks: three built in, one of the harness's own
Bc == "B"  Et == "E"  Ad == "A"  Xx == "X"
Nets == {Bc, Et, Ad, Xx, "U"}              \* U: known to nobody
F(n, min, kind) == [net |-> n, min |-> min, max |-> 256, kind |-> kind]
S(n) == F(n, IF n = Ad THEN 96 ELSE 128, "std")
MgrFacts == [all |-> <<S(Bc), S(Et), S(Ad)>>, be |-> <<S(Bc), S(Et)>>, a |-> <<S(Ad)>>, e |-> <<S(Et)>>,
             bx |-> <<S(Bc), F(Xx, 96, "echo")>>, x |-> <<F(Xx, 160, "echo")>>, ax |-> <<S(Ad), F(Xx, 96, "echo")>>,
             ek |-> <<S(Et), F(Xx, 96, "badkey")>>, el |-> <<S(Et), F(Xx, 96, "badload")>>]
Mgrs == DOMAIN MgrFacts
M(m) == Manager(MgrFacts[m])

\* phrases: [words, lang]; a phrase is known in its own language only
Phrases == {"P12", "P9", "P15", "Pbad"}
WordsIn == [P12 |-> 12, P9 |-> 9, P15 |-> 15, Pbad |-> 12, Podd |-> 11]
Langs == {"L1", "L2"}
MPhraseErrs(lang, t, need) ==
  (IF t = "Pbad" \/ lang # "L1" THEN {"MnemonicError"} ELSE {}) \cup (IF WordsIn[t] # need THEN {"MnemonicError"} ELSE {})
MPhraseToSeed(t) == "seed " \o t
MSeedErrs(s) == IF s = "short" THEN {"InvalidSeedSize"} ELSE {}
MKey(f, seed) == IF f.kind = "badkey" THEN [e |-> "KeyError", b |-> <<>>] ELSE [e |-> "", b |-> <<f.net, seed>>]
MLoad(f, b) == IF f.kind = "badload" \/ b[1] # f.net THEN {"KeyError"} ELSE {}
MNetErr(name, n) == name
MKeyErr(n, e) == "KeyError"
V == INSTANCE Vault WITH FKey <- MKey, FLoad <- MLoad, PhraseErrs <- MPhraseErrs, PhraseToSeed <- MPhraseToSeed,
                         SeedErrs <- MSeedErrs, NetErr <- MNetErr, KeyErr <- MKeyErr

NoDoc == [ok |-> FALSE, ver |-> 0, seed |-> V!NoneV, mnem |-> V!NoneV, dict |-> V!NoneV, keys |-> <<>>]
Doc(ver, seed, mnem, dict, keys) == [ok |-> TRUE, ver |-> ver, seed |-> seed, mnem |-> mnem, dict |-> dict, keys |-> keys]
KeysFrom(s, ns) == [n \in ns |-> <<n, s>>]
\* from elsewhere
Crafted ==
  {Doc(1, V!NoneV, V!NoneV, V!NoneV, KeysFrom(s, ns)) : s \in {"s1"}, ns \in SUBSET {Bc, Ad, Xx}}
  \cup {Doc(2, V!SomeV("s1"), V!SomeV("P12"), V!SomeV("L1"), KeysFrom("s1", ns)) : ns \in {{}, {Et}, {Bc, Xx}}}
  \cup {Doc(2, V!NoneV, V!SomeV(p), V!SomeV(l), KeysFrom("s1", {Et})) : p \in {"P12", "P9", "Pbad", "Podd"}, l \in Langs}
  \cup {Doc(2, V!NoneV, V!SomeV("P12"), V!NoneV, KeysFrom("s1", {Ad})), Doc(2, V!NoneV, V!NoneV, V!SomeV("L1"), KeysFrom("s1", {Ad})),
        Doc(2, V!SomeV("short"), V!NoneV, V!NoneV, KeysFrom("s1", {Et})), Doc(2, V!NoneV, V!NoneV, V!NoneV, <<>>),
        Doc(2, V!SomeV("s1"), V!NoneV, V!NoneV, <<>>),
        \* a key in another network's place
        Doc(2, V!SomeV("s1"), V!NoneV, V!NoneV, Et :> <<Ad, "s1">> @@ Ad :> <<Ad, "s1">>),
        Doc(2, V!SomeV("s1"), V!NoneV, V!NoneV, Xx :> <<"U", "s1">> @@ Bc :> <<Bc, "s1">>),
        NoDoc}

VARIABLES it,   \* the item in hand; st = "none" before there is one
          gh,   \* [made: by whom, seed, nets, pw, keep]
          act   \* the last call (hidden by the view)
vars == <<it, gh, act>>
State == <<it, gh>>

None == [st |-> "none", pw |-> "", doc |-> NoDoc]
NoGh == [own |-> FALSE, seed |-> "", nets |-> {}, pw |-> "", keep |-> V!NoneV]
Did(op, args, errs) == [op |-> op, args |-> args, errs |-> errs]
OtherPw(p) == CHOOSE q \in Pws : q # p
Rank(p) == IF p = "u" THEN 1 ELSE IF p = "v" THEN 2 ELSE 3

FromSeed == \E m \in Mgrs, s \in Seeds \cup {"short"}, p \in Pws :
  LET o == V!FromSeed(M(m), s)
  IN /\ it.st = "none"
     /\ act' = Did("seed", [m |-> m, s |-> s, pw |-> p], o.errs)
     /\ it' = IF o.errs = {} THEN V!Sealed(p, o.doc) ELSE it
     /\ gh' = IF o.errs = {} THEN [own |-> TRUE, seed |-> s, nets |-> FactNets(MgrFacts[m]), pw |-> p, keep |-> <<"seed", s>>] ELSE gh
FromMnem == \E m \in Mgrs, t \in Phrases, l \in Langs, p \in Pws :
  LET o == V!FromMnemonic(M(m), t, l)
  IN /\ it.st = "none"
     /\ act' = Did("mnem", [m |-> m, t |-> t, l |-> l, pw |-> p], o.errs)
     /\ it' = IF o.errs = {} THEN V!Sealed(p, o.doc) ELSE it
     /\ gh' = IF o.errs = {} THEN [own |-> TRUE, seed |-> MPhraseToSeed(t), nets |-> FactNets(MgrFacts[m]), pw |-> p, keep |-> <<"mnem", t, l>>] ELSE gh
Craft == \E d \in Crafted, p \in Pws :
  /\ it.st = "none" /\ it' = V!Sealed(p, d)
  /\ act' = Did("craft", [doc |-> d, pw |-> p], {})
  /\ gh' = [NoGh EXCEPT !.pw = p]
\* something happens to the bytes
Damage == \E how \in {"flip", "cut", "short", "grow"} :
  /\ it.st = "sealed"
  /\ it' = [None EXCEPT !.st = IF how = "short" THEN "short" ELSE "broken"]
  /\ act' = Did("damage", [how |-> how], {})
  /\ gh' = NoGh
ChPw == \E m \in {"all", "x"}, p, q \in Pws :
  LET o == V!ChangePassword(it, p, q)
  IN /\ it.st # "none" /\ (Full \/ Rank(p) < Rank(q) \/ it.pw # p)
     /\ act' = Did("chpw", [m |-> m, pw |-> p, npw |-> q], o.errs)
     /\ it' = IF o.errs = {} THEN o.item ELSE it
     /\ gh' = IF o.errs = {} THEN [gh EXCEPT !.pw = q] ELSE gh
Add == \E m \in Mgrs, n \in Nets, p \in Pws :
  LET o == V!AddNetwork(M(m), it, p, n)
  IN /\ it.st # "none" /\ (it.pw # p => m = "all" /\ n \in {Bc, "U"})
     /\ act' = Did("add", [m |-> m, n |-> n, pw |-> p], o.errs)
     /\ it' = IF o.errs = {} THEN o.item ELSE it
     /\ gh' = IF o.errs = {} THEN [gh EXCEPT !.nets = @ \cup {n}] ELSE gh
Look == \/ \E m \in Mgrs, p \in Pws : /\ it.st # "none" /\ (it.pw # p => m \in {"all", "x"})
                                      /\ act' = Did("open", [m |-> m, pw |-> p], V!Open(M(m), it, p).errs) /\ UNCHANGED <<it, gh>>
        \/ \E p \in Pws : /\ it.st # "none"
                          /\ \/ act' = Did("keys", [m |-> "all", pw |-> p], V!KeysData(it, p).errs)
                             \/ act' = Did("retr", [m |-> "x", pw |-> p], V!Mnemonic(it, p).errs)
                          /\ UNCHANGED <<it, gh>>

Init == it = None /\ gh = NoGh /\ act = Did("init", <<>>, {})
Next == FromSeed \/ FromMnem \/ Craft \/ Damage \/ ChPw \/ Add \/ Look
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* C01, C05: only the password last set opens it, and damage leaves nothing
OnlyItsPassword == it.st = "sealed" => \A p \in Pws : (V!KeysData(it, p).errs \cap {"WrongPassword"} = {}) = (p = gh.pw)
DamagedOpensNever == it.st \in {"broken", "short"} =>
  \A p \in Pws, m \in Mgrs : /\ V!Open(M(m), it, p).errs # {} /\ V!KeysData(it, p).errs # {} /\ V!ChangePassword(it, p, p).errs # {}
                             /\ V!Mnemonic(it, p).errs # {} /\ \A n \in Nets : V!AddNetwork(M(m), it, p, n).errs # {}
\* C04, C06: what it holds is what the history put there: the creator's networks and the added ones, all keyed by the one secret
HoldsItsHistory == it.st = "sealed" /\ gh.own =>
  /\ it.doc.ok /\ it.doc.ver = 2
  /\ DOMAIN it.doc.keys = gh.nets
  /\ \A n \in gh.nets : it.doc.keys[n] = <<n, gh.seed>>
KeepsItsSecret == it.st = "sealed" /\ gh.own =>
  IF gh.keep[1] = "seed" THEN it.doc.seed = V!SomeV(gh.keep[2]) /\ it.doc.mnem = V!NoneV /\ it.doc.dict = V!NoneV
  ELSE it.doc.seed = V!NoneV /\ it.doc.mnem = V!SomeV(gh.keep[2]) /\ it.doc.dict = V!SomeV(gh.keep[3])
\* C07: opening gives the stored networks the manager knows, or fails; what it skips is still there for others
OpensToCommon == it.st = "sealed" =>
  \A m \in Mgrs : LET o == V!Open(M(m), it, it.pw)
                  IN o.errs = {} => /\ DOMAIN o.kc = DOMAIN it.doc.keys \cap FactNets(MgrFacts[m])
                                    /\ \A n \in DOMAIN o.kc : o.kc[n].b = it.doc.keys[n]
OwnDataOpens == it.st = "sealed" /\ gh.own =>
  \A m \in Mgrs : \A i \in 1..Len(MgrFacts[m]) : MgrFacts[m][i].kind = "std" =>
     (V!Open(M(m), it, it.pw).errs = {} \/ \E j \in 1..Len(MgrFacts[m]) : MgrFacts[m][j].kind = "badload" /\ MgrFacts[m][j].net \in gh.nets)
\* C06: adding a network to own data gives what creating with it would have given
AddIsLikeCreate == it.st = "sealed" /\ gh.own /\ gh.keep[1] = "seed" =>
  \A m \in Mgrs, n \in Nets : LET o == V!AddNetwork(M(m), it, it.pw, n)
    IN o.errs = {} => o.item.doc.keys[n] = V!FromSeed(Manager(<<M(m).nets[n]>>), gh.seed).doc.keys[n]
\* steps: nothing is lost, nothing replaced, failures produce nothing
ChangeKeeps == [][act'.op = "chpw" => (IF act'.errs = {} THEN it'.doc = it.doc /\ it'.pw = act'.args.npw ELSE it' = it)]_vars
AddKeeps == [][act'.op = "add" =>
  (IF act'.errs = {} THEN /\ act'.args.n \notin DOMAIN it.doc.keys /\ it'.pw = it.pw
                          /\ DOMAIN it'.doc.keys = DOMAIN it.doc.keys \cup {act'.args.n}
                          /\ \A n \in DOMAIN it.doc.keys : it'.doc.keys[n] = it.doc.keys[n]
                          /\ it'.doc.seed = it.doc.seed /\ it'.doc.mnem = it.doc.mnem /\ it'.doc.dict = it.doc.dict
   ELSE it' = it)]_vars
AddNeeds == [][act'.op = "add" /\ it.st = "sealed" =>
  ((act'.errs = {}) <=> /\ act'.args.n \in FactNets(MgrFacts[act'.args.m]) /\ it.pw = act'.args.pw /\ it.doc.ok
                        /\ act'.args.n \notin DOMAIN it.doc.keys
                        /\ V!SecretErrs(M(act'.args.m), it.doc) = {}
                        /\ ~(act'.args.m = "ek" /\ act'.args.n = Xx))]_vars

\* for the replay: every transition, with the state it leaves and the one it reaches
Emit == PrintT("EDGE " \o ToJson(<<it, act', it'>>))
=============================================================================
