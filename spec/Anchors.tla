-------------------------------- MODULE Anchors --------------------------------
(***************************************************************************)
(* Published vectors for the specification above the primitives: BIP-32,   *)
(* BIP-39, RFC 6979, RFC 8032, RFC 8439, and addresses' keys that any      *)
(* wallet shows for well-known phrases.                                    *)
(***************************************************************************)
EXTENDS KeyPathText, Bip39, Sealed

H(n) == Harden(U32(0, n))
Phrase12(w) == w
Abandon == Utf8("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about")
Junk == Utf8("test test test test test test test test test test test junk")

\* BIP-32 test vector 1
TV1 == Master("000102030405060708090a0b0c0d0e0f")
ASSUME TV1.k = "e8f32e723decf4051aefac8e2c93c9c5b214313817cdb01a1494b917c8436b35"
ASSUME TV1.c = "873dff81c02f525623fd1fe5167eac3a55a049de3d314bb42ee227ffed37d508"
ASSUME Derive(TV1, <<H(0)>>).k = "edb2e14f9ee77d26dd93b4ecede8d16ed408ce149b6cd80b0715a2d911a0afea"
ASSUME LET x == Derive(TV1, <<H(0), "00000001">>)
       IN /\ x.k = "3c6cb8d0f6a264c91ea8b5030fadaa8e538b020f0a387421a12de9319dc93368"
          /\ x.c = "2a7857631386ba23dacac34180dd1983734e444fdbf774041578e9b6adb37c19"
          /\ x.d = "02" /\ x.i = "00000001" /\ x.fp = Fingerprint(Derive(TV1, <<H(0)>>)) /\ x.fp = "5c1bd648"
\* BIP-39 vectors
ASSUME Phrase("English", ToWords("00000000000000000000000000000000")) = Abandon
ASSUME PhraseFaults("English", Abandon) = {} /\ EntOf(PhraseWords("English", Abandon)) = "00000000000000000000000000000000"
ASSUME PhraseSeed(Abandon, Utf8("TREZOR")) = "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"
ASSUME PhraseSeed(Abandon, "") = "5eb00bbddcf069084889a8ab9155568165f5c453ccb85e70811aaed6f6da5fc19a5ac40b389cd370d086206dec8aa6c43daea6690f20ad3d8d48b2d2ce9e38e4"
ASSUME Phrase("English", ToWords("7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f")) = Utf8("legal winner thank year wave sausage worth useful legal winner thank yellow")
ASSUME Phrase("English", ToWords("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")) = Utf8("zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo vote")
\* the first account of the phrase every development chain uses
ASSUME AtPath(ETH, KeyData(ETH, PhraseSeed(Junk, "")), <<P44, ETH, "80000000", "00000000", "00000000">>).k = "ac0974bec39a17e36ba4a6b4d238ff944bacb478cbed5efcae784d7bf4f2ff80"
ASSUME Sub(KECCAK256(Sub(KeyPub(ETH, KeyData(ETH, PhraseSeed(Junk, "")), <<P44, ETH, "80000000", "00000000", "00000000">>), 1, 65)), 12, 32) = "f39fd6e51aad88f6f4ce6ab8827279cfffb92266"
\* BIP-84's own vector: m/84'/0'/0'/0/0 of the all-zero phrase
ASSUME Compress(KeyPub(BTC, KeyData(BTC, PhraseSeed(Abandon, "")), <<"80000054", BTC, "80000000", "00000000", "00000000">>)) = "0330d54fd0dd420a6e5f8d3624f5f3482cae350f79d5f0753bf5beef9c2d91af3c"
\* RFC 8032, test 2, with a key written as kL | kR
ASSUME LET h == SHA512("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb")
           b0 == ByteAt(h, 0) - (ByteAt(h, 0) % 8)
           b31 == (ByteAt(h, 31) % 64) + 64
           x == Hex1(b0) \o Sub(h, 1, 31) \o Hex1(b31) \o Sub(h, 32, 64) \o Sub(h, 0, 32)
       IN /\ Point(x) = "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"
          /\ CSign(x, "72") = "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"
          /\ CVerify(Point(x), "72", CSign(x, "72"))
\* RFC 6979 over secp256k1 (key 1, SHA-256 of "Satoshi Nakamoto"): the widely used vector
ASSUME LET g == SignDigest("0000000000000000000000000000000000000000000000000000000000000001", SHA256(Utf8("Satoshi Nakamoto")))
       IN Sub(g, 0, 64) = "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d82442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5"
\* RFC 8439, 2.4.2 / 2.8.2: the ciphertext of the sunscreen text does not depend on associated data
ASSUME LET c == SEAL("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f", "070000004041424344454647",
                     Utf8("Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it."))
       IN Sub(c, 0, 114) = "d31a8d34648e60db7b86afbc53ef7ec2a4aded51296e08fea9e2b5a736ee62d63dbea45e8ca9671282fafb69da92728b1a71de0a9e060b2905d6a5b67ecd3b3692ddbd7f2d778b8c9803aee328091b58fab324e4fad675945585808b4831d7bc3ff4def08e4b7a9de576d26586cec64b6116"
\* every list: 2048 distinct words, none with a separator; the standard first and last English words
ASSUME \A l \in Langs : Len(WordList(l)) = 2048 /\ Cardinality({WordList(l)[i] : i \in 1..2048}) = 2048
ASSUME WordList("English")[1] = Utf8("abandon") /\ WordList("English")[2048] = Utf8("zoo")
ASSUME \A l \in Langs : \A i \in {1, 2, 1024, 2047, 2048} : Pos(l, WordList(l)[i]) = i - 1
ASSUME Pos("English", Utf8("abando")) = -1
VARIABLE z
Init == z = 0
Next == UNCHANGED z
=============================================================================
