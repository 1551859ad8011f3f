-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* The networks' keys: which stored bytes load, which paths they serve and *)
(* what they answer (C07-C11).  A network is its coin type as eight hex    *)
(* digits; a path is <<purpose, coin, account, change, address>>.          *)
(***************************************************************************)
EXTENDS Secp, Cardano

BTC == "80000000"
ETH == "8000003c"
ADA == "80000717"
BuiltIn == {BTC, ETH, ADA}
P44 == "8000002c"
NetName(n) == "Network(" \o U32Dec(n) \o ")"

\* the components of a path that are at fault for a network, as errors
PathFaults(net, p) ==
       (IF net # BTC /\ p[1] # P44 THEN {"InvalidPurpose(" \o U32Dec(p[1]) \o "," \o U32Dec(P44) \o ")"} ELSE {})
  \cup (IF p[2] # net THEN {"InvalidCoin(" \o U32Dec(p[2]) \o "," \o U32Dec(net) \o ")"} ELSE {})
  \cup (IF ~IsHard(p[3]) THEN {"InvalidAccount(" \o U32Dec(p[3]) \o ")"} ELSE {})
  \cup (IF p[4] \notin {"00000000", "00000001"} THEN {"InvalidChange(" \o U32Dec(p[4]) \o ")"} ELSE {})
  \cup (IF IsHard(p[5]) THEN {"InvalidAddress(" \o U32Dec(p[5]) \o ")"} ELSE {})

\* stored key data made from a seed
KeyData(net, seed) == IF net = ADA THEN Root(seed) ELSE Serial(Master(seed))
\* faults of stored key data (as key errors)
DataFaults(net, b) ==
  IF net = ADA THEN RootFaults(b)
  ELSE {"InvalidKeyData(" \o e \o ")" : e \in SerialFaults(b)}
       \cup (IF net = ETH /\ SerialFaults(b) = {} /\ ByteAt(b, 0) > 253 THEN {"InvalidKeyData(DeriveDepthTooBig)"} ELSE {})

\* the key for an accepted path; the stored key sits above purpose and coin
AtPath(net, b, p) == IF net = ADA THEN CDerive(b, p) ELSE Derive(Unserial(b), p)
TooDeep(net, b) == net # ADA /\ ByteAt(b, 0) > 250
DeepFault(net, b) == IF TooDeep(net, b) THEN {"InvalidKeyData(DeriveDepthTooBig)"} ELSE {}

PathErrs(net, p) == {"InvalidKeyPath(" \o e \o ")" : e \in PathFaults(net, p)}
UseErrs(net, b, p) == PathErrs(net, p) \cup DeepFault(net, b)
SigErrs(net, sig) ==
  IF net = ADA THEN (IF BLen(sig) # 64 THEN {"InvalidSignatureSize(" \o ToDec(BLen(sig)) \o ",64)"} ELSE {})
  ELSE IF BLen(sig) \notin SigSizes THEN {"InvalidSignatureSize(" \o ToDec(BLen(sig)) \o ",64)"} ELSE {}

KeyPub(net, b, p) == IF net = ADA THEN PubKey(AtPath(net, b, p)) ELSE PubOf(AtPath(net, b, p))
KeySign(net, b, p, msg) == IF net = ADA THEN CSign(AtPath(net, b, p), msg) ELSE SignMsg(AtPath(net, b, p), msg)
KeyVerify(net, b, p, msg, sig) ==
  IF net = ADA THEN CVerify(Point(AtPath(net, b, p)), msg, sig) ELSE VerifyMsg(PubOf(AtPath(net, b, p)), msg, sig)
=============================================================================
