-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* Concrete reading of the life cycle: the networks' real keys, the        *)
(* harness's own networks ("echo" and its faulty variants), phrases and    *)
(* sealed bytes.  Instantiates Vault.                                      *)
(***************************************************************************)
EXTENDS Calls, WalletFormat, Managers

Wrap(n, e) == "KeyError(" \o NetName(n) \o "," \o e \o ")"
Std(n) == [net |-> n, min |-> IF n = ADA THEN 96 ELSE 128, max |-> 256, kind |-> "std"]
\* an echo key is the network number followed by the first eight seed bytes
EchoData(n, seed) == n \o Sub(seed, 0, 8)
WFKey(f, seed) ==
  CASE f.kind = "std" -> [e |-> "", b |-> KeyData(f.net, seed)]
    [] f.kind \in {"echo", "badload"} -> [e |-> "", b |-> EchoData(f.net, seed)]
    [] f.kind = "empty" -> [e |-> "", b |-> ""]
    [] f.kind = "badkey" -> [e |-> "InvalidKeySize(1,2)", b |-> ""]
    [] f.kind = "panicky" -> [e |-> "panic", b |-> ""]
WFLoad(f, b) ==
  CASE f.kind = "std" -> DataFaults(f.net, b)
    [] f.kind \in {"echo", "badkey"} -> IF BLen(b) = 12 /\ Sub(b, 0, 4) = f.net THEN {} ELSE {"InvalidKeySize(" \o ToDec(BLen(b)) \o ",12)"}
    [] f.kind = "empty" -> {}
    [] f.kind = "badload" -> {"InvalidKeySize(3,4)"}
    [] f.kind = "panicky" -> {"panic"}
WPhraseErrs(lang, t, need) ==
  LET w == SplitWords(t)  n == Len(w)
  IN {"MnemonicError(UnsupportedWordFound(x" \o x \o "))" : x \in {w[i] : i \in {j \in 1..n : ~InDict(lang, w[j])}}}
     \cup (IF n \notin Counts THEN {"MnemonicError(" \o CountErr(n) \o ")"}
           ELSE IF n < need THEN {"MnemonicError(MnemonicToShort(" \o ToDec(n) \o "," \o ToDec(need) \o "))"}
           ELSE IF n > need THEN {"MnemonicError(MnemonicToLong(" \o ToDec(n) \o "," \o ToDec(need) \o "))"} ELSE {})
WPhraseToSeed(t) == PhraseSeed(t, "")
WSeedErrs(s) == IF BLen(s) = 64 THEN {} ELSE {"InvalidSeedSize(" \o ToDec(BLen(s)) \o ")"}
WNetErr(name, n) == name \o "(" \o NetName(n) \o ")"
WKeyErr(n, e) == Wrap(n, e)

V == INSTANCE Vault WITH FKey <- WFKey, FLoad <- WFLoad, PhraseErrs <- WPhraseErrs, PhraseToSeed <- WPhraseToSeed,
                         SeedErrs <- WSeedErrs, NetErr <- WNetErr, KeyErr <- WKeyErr

\* bytes of unknown origin, seen through a password
MgrErr(e) == IF e = "DecryptionFailed" THEN "WrongPassword" ELSE e
RawItem(b, pw) ==
  LET o == OpenWith(pw, b)
  IN IF o.e = "NotEnoughData" THEN [st |-> "short", pw |-> "", doc |-> Bad, pay |-> ""]
     ELSE IF o.e # "" THEN [st |-> "broken", pw |-> "", doc |-> Bad, pay |-> ""]
     ELSE [st |-> "sealed", pw |-> PwKey(pw), doc |-> Parse(o.pt), pay |-> o.pt]

\* freshly sealed bytes hold this document under this password, in version 2
SealedDoc(b, pw, doc) == LET o == OpenWith(pw, b) IN o.e = "" /\ LET d == Parse(o.pt) IN d.ok /\ d.ver = doc.ver /\ Facts(d) = Facts(doc)
\* re-encrypted bytes: the same document in the same version, or the same unreadable payload
SealedSame(b, pw, it) == LET o == OpenWith(pw, b)
                         IN o.e = "" /\ (IF it.doc.ok THEN LET d == Parse(o.pt) IN d.ok /\ d.ver = it.doc.ver /\ Facts(d) = Facts(it.doc) ELSE o.pt = it.pay)

-----------------------------------------------------------------------------
\* keychain operations; kc maps networks to [f, b]
HasErr(kc, n) == IF n \in DOMAIN kc THEN {} ELSE {WNetErr("KeyDoesNotExist", n)}
EchoPath(p) == p[1] \o p[2] \o p[3] \o p[4] \o p[5]
K_Errs(kc, n, p) == IF HasErr(kc, n) # {} THEN HasErr(kc, n)
                    ELSE IF kc[n].f.kind = "std" THEN {Wrap(n, x) : x \in UseErrs(n, kc[n].b, p)} ELSE {}
K_SigErrs(kc, n, sig) == IF n \in DOMAIN kc /\ kc[n].f.kind = "std" THEN {Wrap(n, x) : x \in SigErrs(n, sig)} ELSE {}
K_Pub(k, n, p) == IF k.f.kind = "std" THEN KeyPub(n, k.b, p) ELSE k.b \o EchoPath(p)
K_Sign(k, n, p, m) == IF k.f.kind = "std" THEN KeySign(n, k.b, p, m) ELSE k.b \o EchoPath(p) \o m
K_Verify(k, n, p, m, s) == IF k.f.kind = "std" THEN KeyVerify(n, k.b, p, m, s) ELSE s = k.b \o EchoPath(p) \o m
=============================================================================
