------------------------------ MODULE PrimTest ------------------------------
(* Known-answer tests of the primitives (published vectors). *)
EXTENDS Prim, TLC
ASSUME SHA256("") = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"
ASSUME KECCAK256("") = "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
ASSUME KECCAK256(Utf8("abc")) = "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
ASSUME RIPEMD160("") = "9c1185a5c5e9fc54612808977ee8f548b2258d31"
ASSUME RIPEMD160(Utf8("abcdefghijklmnopqrstuvwxyz")) = "f71c27109c692c1b56bbdceb5b9d2865b3708dbc"
ASSUME RIPEMD160(Utf8("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")) = "b0e20b6e3116640286ed3a87a5713079b21f5189"
\* RFC 4231 case 2
ASSUME HMAC512(Utf8("Jefe"), Utf8("what do ya want for nothing?")) =
  "164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea2505549758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737"
ASSUME HMAC256(Utf8("Jefe"), Utf8("what do ya want for nothing?")) = "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"
\* PBKDF2-HMAC-SHA512, published vector (password/salt, 2 rounds)
ASSUME PBKDF2(Utf8("password"), Utf8("salt"), 2, 64) =
  "e1d9c16aa681708a45f5c7c4e215ceb66e011a2e9f0040713f18aefdb866d53cf76cab2868a39b9f7840edce4fef5a82be67335c77a6068e04112754f27ccf4e"
\* RFC 8439 2.8.2 has associated data; a round trip and an altered tag are checked instead, plus a keystream anchor
ASSUME LET k == SHA256("00")  n == "000102030405060708090a0b"  c == SEAL(k, n, Utf8("hello"))
       IN /\ OPEN(k, n, SubSeq(c, 1, 10), SubSeq(c, 11, 42)) = Utf8("hello")
          /\ OPEN(k, n, SubSeq(c, 1, 10), SHA256("") ) = "bad"
ASSUME SecpMulG("0000000000000000000000000000000000000000000000000000000000000002") =
  "04c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee51ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a"
ASSUME SecpMulG("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141") = "inf"
\* RFC 8032 test 1: A = clamp(SHA512(seed)) * B
ASSUME EdMulB("307c83864f2833cb427a2ef1c00a013cfdff2768d980c0a3a520f006904de94f") = "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"
ASSUME B64Dec(Utf8("aGk=")) = "6869" /\ B64Dec(Utf8("aGk")) = "6869" /\ B64Dec(Utf8("aGl=")) = "bad" /\ B64Enc("6869") = "aGk="
ASSUME Split("a b  c", " ") = <<"a", "b", "", "c">>
ASSUME Chars("a'") = <<97, 39>>
ASSUME JSON(Utf8("{\"a\":[1,\"x\"]}")) = [t |-> "obj", a |-> << [k |-> "61", v |-> [t |-> "arr", a |-> << [t |-> "num", a |-> "1"], [t |-> "str", a |-> "78"] >>]] >>]
ASSUME JSON(Utf8("{}x")).t = "bad"
VARIABLE z
Init == z = 0
Next == UNCHANGED z
=============================================================================
