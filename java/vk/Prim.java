package vk;

import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.charset.*;
import java.security.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import javax.crypto.*;
import javax.crypto.spec.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Concrete interpretation of the primitives declared in Prim.tla: hash functions, curves, ciphers and text
 * codecs, written against the JDK and textbook BigInteger arithmetic, sharing nothing with the code under
 * verification.  All byte strings are lower-case hex.
 */
public class Prim implements ITLCOverrides {
  public Class<?>[] get() { return new Class<?>[] {Prim.class}; }

  // ---------------------------------------------------------------- helpers
  static final char[] HEX = "0123456789abcdef".toCharArray();

  static String s(Value v) { return ((StringValue) v).getVal().toString(); }
  static Value v(String x) { return new StringValue(x); }
  static Value v(byte[] x) { return new StringValue(hex(x)); }
  static Value v(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static String hex(byte[] b) {
    char[] c = new char[b.length * 2];
    for (int i = 0; i < b.length; i++) { c[2 * i] = HEX[(b[i] >> 4) & 15]; c[2 * i + 1] = HEX[b[i] & 15]; }
    return new String(c);
  }
  static byte[] un(String h) {
    if (h.length() % 2 != 0) throw new IllegalArgumentException("odd hex: " + h);
    byte[] b = new byte[h.length() / 2];
    for (int i = 0; i < b.length; i++) {
      int hi = Character.digit(h.charAt(2 * i), 16), lo = Character.digit(h.charAt(2 * i + 1), 16);
      if (hi < 0 || lo < 0) throw new IllegalArgumentException("not hex: " + h);
      b[i] = (byte) (hi * 16 + lo);
    }
    return b;
  }
  static byte[] b(Value x) { return un(s(x)); }
  static byte[] cat(byte[]... xs) {
    int n = 0; for (byte[] x : xs) n += x.length;
    byte[] r = new byte[n]; n = 0;
    for (byte[] x : xs) { System.arraycopy(x, 0, r, n, x.length); n += x.length; }
    return r;
  }
  static byte[] rev(byte[] a) { byte[] r = new byte[a.length]; for (int i = 0; i < a.length; i++) r[i] = a[a.length - 1 - i]; return r; }
  static BigInteger be(byte[] a) { return new BigInteger(1, a); }
  static BigInteger le(byte[] a) { return new BigInteger(1, rev(a)); }
  static byte[] be32(BigInteger x) {
    byte[] t = x.toByteArray(), r = new byte[32];
    int off = Math.max(0, t.length - 32), len = t.length - off;
    System.arraycopy(t, off, r, 32 - len, len);
    return r;
  }
  static byte[] le32(BigInteger x) { return rev(be32(x)); }
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO, B256 = ONE.shiftLeft(256);

  // ---------------------------------------------------------------- hashes
  static byte[] md(String alg, byte[]... xs) throws Exception {
    MessageDigest m = MessageDigest.getInstance(alg);
    for (byte[] x : xs) m.update(x);
    return m.digest();
  }
  @TLAPlusOperator(identifier = "SHA256", module = "Prim", warn = false)
  public static Value sha256(Value x) throws Exception { return v(md("SHA-256", b(x))); }
  @TLAPlusOperator(identifier = "SHA512", module = "Prim", warn = false)
  public static Value sha512(Value x) throws Exception { return v(md("SHA-512", b(x))); }

  static byte[] hmac(String alg, int block, byte[] key, byte[] data) throws Exception {
    // RFC 2104 from the digest: javax.crypto.Mac refuses empty keys
    if (key.length > block) key = md(alg, key);
    byte[] i = new byte[block], o = new byte[block];
    for (int k = 0; k < block; k++) { byte c = k < key.length ? key[k] : 0; i[k] = (byte) (c ^ 0x36); o[k] = (byte) (c ^ 0x5c); }
    return md(alg, o, md(alg, i, data));
  }
  @TLAPlusOperator(identifier = "HMAC512", module = "Prim", warn = false)
  public static Value hmac512(Value k, Value d) throws Exception { return v(hmac("SHA-512", 128, b(k), b(d))); }
  @TLAPlusOperator(identifier = "HMAC256", module = "Prim", warn = false)
  public static Value hmac256(Value k, Value d) throws Exception { return v(hmac("SHA-256", 64, b(k), b(d))); }

  static final ConcurrentHashMap<String, String> MEMO = new ConcurrentHashMap<>();

  static String pbkdf2(String pw, String salt, int iter, int len) throws Exception {
    String key = "p" + pw + "|" + salt + "|" + iter + "|" + len;
    String r = MEMO.get(key);
    if (r != null) return r;
    byte[] P = un(pw), S = un(salt), out = new byte[len];
    if (P.length > 128) P = md("SHA-512", P);
    byte[] ip = new byte[128], op = new byte[128];
    for (int k = 0; k < 128; k++) { byte c = k < P.length ? P[k] : 0; ip[k] = (byte) (c ^ 0x36); op[k] = (byte) (c ^ 0x5c); }
    MessageDigest mi = MessageDigest.getInstance("SHA-512"), mo = MessageDigest.getInstance("SHA-512");
    mi.update(ip); mo.update(op);
    byte[] u = new byte[64];
    for (int blk = 1, off = 0; off < len; blk++, off += 64) {
      MessageDigest a = (MessageDigest) mi.clone();
      a.update(S); a.update(ByteBuffer.allocate(4).putInt(blk).array());
      byte[] h = a.digest();
      MessageDigest c = (MessageDigest) mo.clone(); c.update(h); u = c.digest();
      byte[] t = u.clone();
      for (int i = 1; i < iter; i++) {
        a = (MessageDigest) mi.clone(); a.update(u); h = a.digest();
        c = (MessageDigest) mo.clone(); c.update(h); u = c.digest();
        for (int k = 0; k < 64; k++) t[k] ^= u[k];
      }
      System.arraycopy(t, 0, out, off, Math.min(64, len - off));
    }
    r = hex(out);
    MEMO.put(key, r);
    return r;
  }
  @TLAPlusOperator(identifier = "PBKDF2", module = "Prim", warn = false)
  public static Value pbkdf2(Value pw, Value salt, Value iter, Value len) throws Exception {
    return v(pbkdf2(s(pw), s(salt), ((IntValue) iter).val, ((IntValue) len).val));
  }

  // Keccak-256 (original padding)
  static final long[] RC = {0x0000000000000001L, 0x0000000000008082L, 0x800000000000808aL, 0x8000000080008000L,
    0x000000000000808bL, 0x0000000080000001L, 0x8000000080008081L, 0x8000000000008009L, 0x000000000000008aL,
    0x0000000000000088L, 0x0000000080008009L, 0x000000008000000aL, 0x000000008000808bL, 0x800000000000008bL,
    0x8000000000008089L, 0x8000000000008003L, 0x8000000000008002L, 0x8000000000000080L, 0x000000000000800aL,
    0x800000008000000aL, 0x8000000080008081L, 0x8000000000008080L, 0x0000000080000001L, 0x8000000080008008L};
  static void keccakF(long[] a) {
    long[] c = new long[5], bb = new long[25];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
      }
      // rho and pi, rotation offsets computed as in the definition
      int x = 1, y = 0; bb[0] = a[0];
      for (int t = 0; t < 24; t++) {
        int rot = ((t + 1) * (t + 2) / 2) % 64;
        int nx = y, ny = (2 * x + 3 * y) % 5;
        bb[nx + 5 * ny] = Long.rotateLeft(a[x + 5 * y], rot);
        x = nx; y = ny;
      }
      for (y = 0; y < 5; y++) for (x = 0; x < 5; x++) a[x + 5 * y] = bb[x + 5 * y] ^ (~bb[(x + 1) % 5 + 5 * y] & bb[(x + 2) % 5 + 5 * y]);
      a[0] ^= RC[r];
    }
  }
  @TLAPlusOperator(identifier = "KECCAK256", module = "Prim", warn = false)
  public static Value keccak256(Value m) {
    byte[] in = b(m); int rate = 136;
    byte[] p = Arrays.copyOf(in, (in.length / rate + 1) * rate);
    p[in.length] ^= 1; p[p.length - 1] ^= (byte) 0x80;
    long[] a = new long[25];
    for (int o = 0; o < p.length; o += rate) {
      for (int i = 0; i < rate / 8; i++) {
        long w = 0; for (int k = 7; k >= 0; k--) w = (w << 8) | (p[o + 8 * i + k] & 0xff);
        a[i] ^= w;
      }
      keccakF(a);
    }
    byte[] r = new byte[32];
    for (int i = 0; i < 32; i++) r[i] = (byte) (a[i / 8] >> (8 * (i % 8)));
    return v(r);
  }

  // RIPEMD-160
  static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static final int[] KL = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}, KR = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
  static int rf(int j, int x, int y, int z) {
    switch (j / 16) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
  }
  @TLAPlusOperator(identifier = "RIPEMD160", module = "Prim", warn = false)
  public static Value ripemd160(Value m) {
    byte[] in = b(m);
    byte[] p = Arrays.copyOf(in, ((in.length + 8) / 64 + 1) * 64);
    p[in.length] = (byte) 0x80;
    long bits = 8L * in.length;
    for (int i = 0; i < 8; i++) p[p.length - 8 + i] = (byte) (bits >> (8 * i));
    int[] h = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    for (int o = 0; o < p.length; o += 64) {
      int[] x = new int[16];
      for (int i = 0; i < 16; i++) for (int k = 3; k >= 0; k--) x[i] = (x[i] << 8) | (p[o + 4 * i + k] & 0xff);
      int a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4], a2 = a, b2 = bb, c2 = c, d2 = d, e2 = e;
      for (int j = 0; j < 80; j++) {
        int t = Integer.rotateLeft(a + rf(j, bb, c, d) + x[RL[j]] + KL[j / 16], SL[j]) + e;
        a = e; e = d; d = Integer.rotateLeft(c, 10); c = bb; bb = t;
        t = Integer.rotateLeft(a2 + rf(79 - j, b2, c2, d2) + x[RR[j]] + KR[j / 16], SR[j]) + e2;
        a2 = e2; e2 = d2; d2 = Integer.rotateLeft(c2, 10); c2 = b2; b2 = t;
      }
      int t = h[1] + c + d2; h[1] = h[2] + d + e2; h[2] = h[3] + e + a2; h[3] = h[4] + a + b2; h[4] = h[0] + bb + c2; h[0] = t;
    }
    byte[] r = new byte[20];
    for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >> (8 * (i % 4)));
    return v(r);
  }

  // ---------------------------------------------------------------- ChaCha20-Poly1305 (RFC 8439, no AAD)
  @TLAPlusOperator(identifier = "SEAL", module = "Prim", warn = false)
  public static Value seal(Value key, Value nonce, Value pt) throws Exception {
    Cipher c = Cipher.getInstance("ChaCha20-Poly1305");
    c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(b(key), "ChaCha20"), new IvParameterSpec(b(nonce)));
    return v(c.doFinal(b(pt)));  // ciphertext | tag
  }
  @TLAPlusOperator(identifier = "SEALA", module = "Prim", warn = false)
  public static Value sealA(Value key, Value nonce, Value aad, Value pt) throws Exception {
    Cipher c = Cipher.getInstance("ChaCha20-Poly1305");
    c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(b(key), "ChaCha20"), new IvParameterSpec(b(nonce)));
    c.updateAAD(b(aad));
    return v(c.doFinal(b(pt)));
  }
  @TLAPlusOperator(identifier = "OPEN", module = "Prim", warn = false)
  public static Value open(Value key, Value nonce, Value ct, Value tag) throws Exception {
    Cipher c = Cipher.getInstance("ChaCha20-Poly1305");
    c.init(Cipher.DECRYPT_MODE, new SecretKeySpec(b(key), "ChaCha20"), new IvParameterSpec(b(nonce)));
    try { return v(c.doFinal(cat(b(ct), b(tag)))); } catch (AEADBadTagException e) { return v("bad"); }
  }

  // ---------------------------------------------------------------- secp256k1
  static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
  static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
  static final BigInteger[] G = {
    new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16),
    new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16), ONE};
  // Jacobian points {x,y,z}; infinity has z = 0
  static BigInteger[] dbl(BigInteger[] p) {
    if (p[2].signum() == 0 || p[1].signum() == 0) return new BigInteger[] {ONE, ONE, ZERO};
    BigInteger yy = p[1].multiply(p[1]).mod(P), S = p[0].multiply(yy).shiftLeft(2).mod(P);
    BigInteger M = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).mod(P);
    BigInteger x = M.multiply(M).subtract(S.shiftLeft(1)).mod(P);
    BigInteger y = M.multiply(S.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(P);
    return new BigInteger[] {x, y, p[1].multiply(p[2]).shiftLeft(1).mod(P)};
  }
  static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
    if (p[2].signum() == 0) return q;
    if (q[2].signum() == 0) return p;
    BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
    BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
    BigInteger s1 = p[1].multiply(z2).multiply(q[2]).mod(P), s2 = q[1].multiply(z1).multiply(p[2]).mod(P);
    if (u1.equals(u2)) return s1.equals(s2) ? dbl(p) : new BigInteger[] {ONE, ONE, ZERO};
    BigInteger h = u2.subtract(u1).mod(P), r = s2.subtract(s1).mod(P), hh = h.multiply(h).mod(P), hhh = hh.multiply(h).mod(P), w = u1.multiply(hh).mod(P);
    BigInteger x = r.multiply(r).subtract(hhh).subtract(w.shiftLeft(1)).mod(P);
    BigInteger y = r.multiply(w.subtract(x)).subtract(s1.multiply(hhh)).mod(P);
    return new BigInteger[] {x, y, p[2].multiply(q[2]).multiply(h).mod(P)};
  }
  static BigInteger[] mul(BigInteger k, BigInteger[] p) {
    BigInteger[] r = {ONE, ONE, ZERO};
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = dbl(r); if (k.testBit(i)) r = add(r, p); }
    return r;
  }
  /** 16^i * j * G for j = 1..15 */
  static final class GTable {
    static final BigInteger[][][] T = new BigInteger[64][16][];
    static {
      BigInteger[] b = G;
      for (int i = 0; i < 64; i++) {
        T[i][1] = b;
        for (int j = 2; j < 16; j++) T[i][j] = add(T[i][j - 1], b);
        b = add(T[i][15], b);
      }
    }
  }
  static BigInteger[] mulG(BigInteger k) {
    BigInteger[] r = {ONE, ONE, ZERO};
    for (int i = 0; i < 64; i++) { int j = k.shiftRight(4 * i).intValue() & 15; if (j != 0) r = add(r, GTable.T[i][j]); }
    return r;
  }
  static BigInteger[] aff(BigInteger[] p) {
    if (p[2].signum() == 0) return null;
    BigInteger zi = p[2].modInverse(P), z2 = zi.multiply(zi).mod(P);
    return new BigInteger[] {p[0].multiply(z2).mod(P), p[1].multiply(z2).multiply(zi).mod(P), ONE};
  }
  static String enc(BigInteger[] a) { return a == null ? "inf" : "04" + hex(be32(a[0])) + hex(be32(a[1])); }
  static BigInteger[] dec(String h) {
    if (h.equals("inf")) return new BigInteger[] {ONE, ONE, ZERO};
    return new BigInteger[] {new BigInteger(h.substring(2, 66), 16), new BigInteger(h.substring(66), 16), ONE};
  }
  /** k*G, uncompressed, "inf" for the neutral element. */
  @TLAPlusOperator(identifier = "SecpMulG", module = "Prim", warn = false)
  public static Value secpMulG(Value k) {
    String key = s(k);
    return v(MEMO.computeIfAbsent("g" + key, x -> enc(aff(mulG(be(un(key)).mod(N))))));
  }
  /** a*G + b*Q */
  @TLAPlusOperator(identifier = "SecpMulAdd", module = "Prim", warn = false)
  public static Value secpMulAdd(Value a, Value bq, Value q) {
    return v(enc(aff(add(mulG(be(b(a)).mod(N)), mul(be(b(bq)).mod(N), dec(s(q)))))));
  }
  /** the point with this x coordinate and y parity, "none" when x is not on the curve */
  @TLAPlusOperator(identifier = "SecpLift", module = "Prim", warn = false)
  public static Value secpLift(Value xs, Value odd) {
    BigInteger x = be(b(xs));
    if (x.compareTo(P) >= 0) return v("none");
    BigInteger c = x.multiply(x).multiply(x).add(BigInteger.valueOf(7)).mod(P);
    BigInteger y = c.modPow(P.add(ONE).shiftRight(2), P);
    if (!y.multiply(y).mod(P).equals(c)) return v("none");
    if (y.testBit(0) != (((IntValue) odd).val == 1)) y = P.subtract(y);
    return v(enc(new BigInteger[] {x, y, ONE}));
  }
  @TLAPlusOperator(identifier = "NAdd", module = "Prim", warn = false)
  public static Value nAdd(Value a, Value c) { return v(be32(be(b(a)).add(be(b(c))).mod(N))); }
  @TLAPlusOperator(identifier = "NMul", module = "Prim", warn = false)
  public static Value nMul(Value a, Value c) { return v(be32(be(b(a)).multiply(be(b(c))).mod(N))); }
  @TLAPlusOperator(identifier = "NNeg", module = "Prim", warn = false)
  public static Value nNeg(Value a) { return v(be32(N.subtract(be(b(a)).mod(N)).mod(N))); }
  @TLAPlusOperator(identifier = "NInv", module = "Prim", warn = false)
  public static Value nInv(Value a) { return v(be32(be(b(a)).mod(N).modInverse(N))); }
  /** plain 256-bit sum: "over" when it does not fit */
  @TLAPlusOperator(identifier = "BeAdd256", module = "Prim", warn = false)
  public static Value beAdd(Value a, Value c) {
    BigInteger r = be(b(a)).add(be(b(c)));
    return r.compareTo(B256) >= 0 ? v("over") : v(be32(r));
  }

  // ---------------------------------------------------------------- edwards25519
  static final BigInteger Q = ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
  static final BigInteger L = ONE.shiftLeft(252).add(new BigInteger("27742317777372353535851937790883648493"));
  static final BigInteger D = BigInteger.valueOf(-121665).multiply(BigInteger.valueOf(121666).modInverse(Q)).mod(Q);
  static final BigInteger I = TWO.modPow(Q.subtract(ONE).shiftRight(2), Q);
  static final BigInteger[] EB;
  static BigInteger recoverX(BigInteger y) {
    BigInteger yy = y.multiply(y), u = yy.subtract(ONE).mod(Q), w = D.multiply(yy).add(ONE).mod(Q);
    BigInteger xx = u.multiply(w.modInverse(Q)).mod(Q);
    BigInteger x = xx.modPow(Q.add(BigInteger.valueOf(3)).shiftRight(3), Q);
    if (!x.multiply(x).subtract(xx).mod(Q).equals(ZERO)) x = x.multiply(I).mod(Q);
    if (!x.multiply(x).subtract(xx).mod(Q).equals(ZERO)) return null;
    return x;
  }
  static {
    BigInteger y = BigInteger.valueOf(4).multiply(BigInteger.valueOf(5).modInverse(Q)).mod(Q), x = recoverX(y);
    if (x.testBit(0)) x = Q.subtract(x);
    EB = new BigInteger[] {x, y, ONE, x.multiply(y).mod(Q)};
  }
  static BigInteger[] eadd(BigInteger[] p, BigInteger[] q) {
    BigInteger a = p[1].subtract(p[0]).multiply(q[1].subtract(q[0])).mod(Q), c = p[1].add(p[0]).multiply(q[1].add(q[0])).mod(Q);
    BigInteger t = p[3].multiply(q[3]).mod(Q).multiply(D).shiftLeft(1).mod(Q), z = p[2].multiply(q[2]).shiftLeft(1).mod(Q);
    BigInteger e = c.subtract(a), f = z.subtract(t), g = z.add(t), h = c.add(a);
    return new BigInteger[] {e.multiply(f).mod(Q), g.multiply(h).mod(Q), f.multiply(g).mod(Q), e.multiply(h).mod(Q)};
  }
  static BigInteger[] emul(BigInteger k, BigInteger[] p) {
    BigInteger[] r = {ZERO, ONE, ONE, ZERO};
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = eadd(r, r); if (k.testBit(i)) r = eadd(r, p); }
    return r;
  }
  /** 16^i * j * B for j = 1..15 */
  static final class BTable {
    static final BigInteger[][][] T = new BigInteger[64][16][];
    static {
      BigInteger[] b = EB;
      for (int i = 0; i < 64; i++) {
        T[i][1] = b;
        for (int j = 2; j < 16; j++) T[i][j] = eadd(T[i][j - 1], b);
        b = eadd(T[i][15], b);
      }
    }
  }
  static BigInteger[] emulB(BigInteger k) {
    BigInteger[] r = {ZERO, ONE, ONE, ZERO};
    for (int i = 0; i < 64; i++) { int j = k.shiftRight(4 * i).intValue() & 15; if (j != 0) r = eadd(r, BTable.T[i][j]); }
    return r;
  }
  static String eenc(BigInteger[] p) {
    BigInteger zi = p[2].modInverse(Q), x = p[0].multiply(zi).mod(Q), y = p[1].multiply(zi).mod(Q);
    byte[] r = le32(y);
    if (x.testBit(0)) r[31] |= (byte) 0x80;
    return hex(r);
  }
  /** k*B for a little-endian scalar */
  @TLAPlusOperator(identifier = "EdMulB", module = "Prim", warn = false)
  public static Value edMulB(Value k) {
    String key = s(k);
    return v(MEMO.computeIfAbsent("e" + key, x -> eenc(emulB(le(un(key))))));
  }
  @TLAPlusOperator(identifier = "EdReduce", module = "Prim", warn = false)
  public static Value edReduce(Value k) { return v(le32(le(b(k)).mod(L))); }
  /** a*b + c mod L */
  @TLAPlusOperator(identifier = "EdMulAdd", module = "Prim", warn = false)
  public static Value edMulAdd(Value a, Value bb, Value c) { return v(le32(le(b(a)).multiply(le(b(bb))).add(le(b(c))).mod(L))); }
  @TLAPlusOperator(identifier = "EdBelowL", module = "Prim", warn = false)
  public static Value edBelowL(Value a) { return v(le(b(a)).compareTo(L) < 0); }
  /** s*B - h*A, "none" when A is not a point */
  @TLAPlusOperator(identifier = "EdCombine", module = "Prim", warn = false)
  public static Value edCombine(Value ss, Value h, Value a) {
    byte[] ab = b(a); boolean odd = (ab[31] & 0x80) != 0; ab[31] &= 0x7f;
    BigInteger y = le(ab);
    if (y.compareTo(Q) >= 0) return v("none");
    BigInteger x = recoverX(y);
    if (x == null) return v("none");
    if (x.testBit(0) != odd) x = Q.subtract(x).mod(Q);
    BigInteger nx = Q.subtract(x).mod(Q);
    BigInteger[] neg = {nx, y, ONE, nx.multiply(y).mod(Q)};
    return v(eenc(eadd(emulB(le(b(ss))), emul(le(b(h)), neg))));
  }
  /** x + 8 * (first 28 bytes of y), and x + y; little-endian, 256 bits, wrapping */
  @TLAPlusOperator(identifier = "LeAdd28Mul8", module = "Prim", warn = false)
  public static Value add28(Value x, Value y) { return v(le32(le(b(x)).add(le(Arrays.copyOf(b(y), 28)).shiftLeft(3)).mod(B256))); }
  @TLAPlusOperator(identifier = "LeAdd256", module = "Prim", warn = false)
  public static Value add256(Value x, Value y) { return v(le32(le(b(x)).add(le(b(y))).mod(B256))); }
  /** L + s when it still fits 32 bytes, "over" otherwise (used to make non-canonical signatures) */
  @TLAPlusOperator(identifier = "EdPlusL", module = "Prim", warn = false)
  public static Value edPlusL(Value x) {
    BigInteger r = le(b(x)).add(L);
    return r.compareTo(B256) >= 0 ? v("over") : v(le32(r));
  }

  // ---------------------------------------------------------------- text
  static String utf8(byte[] x) {
    try {
      return StandardCharsets.UTF_8.newDecoder().onMalformedInput(CodingErrorAction.REPORT)
          .onUnmappableCharacter(CodingErrorAction.REPORT).decode(ByteBuffer.wrap(x)).toString();
    } catch (CharacterCodingException e) { return null; }
  }
  @TLAPlusOperator(identifier = "Utf8", module = "Prim", warn = false)
  public static Value utf8enc(Value x) { return v(s(x).getBytes(StandardCharsets.UTF_8)); }
  @TLAPlusOperator(identifier = "NFKD", module = "Prim", warn = false)
  public static Value nfkd(Value x) { return v(java.text.Normalizer.normalize(utf8(b(x)), java.text.Normalizer.Form.NFKD).getBytes(java.nio.charset.StandardCharsets.UTF_8)); }
  @TLAPlusOperator(identifier = "NFC", module = "Prim", warn = false)
  public static Value nfc(Value x) { return v(java.text.Normalizer.normalize(utf8(b(x)), java.text.Normalizer.Form.NFC).getBytes(java.nio.charset.StandardCharsets.UTF_8)); }
  @TLAPlusOperator(identifier = "IsUtf8", module = "Prim", warn = false)
  public static Value isUtf8(Value x) { return v(utf8(b(x)) != null); }
  /** text of valid UTF-8 bytes */
  @TLAPlusOperator(identifier = "Text", module = "Prim", warn = false)
  public static Value text(Value x) {
    String r = utf8(b(x));
    if (r == null) throw new IllegalArgumentException("Text of non-UTF-8");
    return v(r);
  }
  @TLAPlusOperator(identifier = "Chars", module = "Prim", warn = false)
  public static Value chars(Value x) {
    int[] cp = s(x).codePoints().toArray();
    Value[] r = new Value[cp.length];
    for (int i = 0; i < cp.length; i++) r[i] = IntValue.gen(cp[i]);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "FromChars", module = "Prim", warn = false)
  public static Value fromChars(Value x) {
    TupleValue t = (TupleValue) x.toTuple();
    StringBuilder sb = new StringBuilder();
    for (Value c : t.elems) sb.appendCodePoint(((IntValue) c).val);
    return v(sb.toString());
  }
  /** split at every occurrence of a non-empty separator, empty pieces kept */
  @TLAPlusOperator(identifier = "Split", module = "Prim", warn = false)
  public static Value split(Value x, Value sep) {
    String t = s(x), p = s(sep);
    List<Value> r = new ArrayList<>();
    int i = 0;
    for (int j; (j = t.indexOf(p, i)) >= 0; i = j + p.length()) r.add(v(t.substring(i, j)));
    r.add(v(t.substring(i)));
    return new TupleValue(r.toArray(new Value[0]));
  }
  static final String B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  @TLAPlusOperator(identifier = "B64Enc", module = "Prim", warn = false)
  public static Value b64enc(Value x) { return v(Base64.getEncoder().encodeToString(b(x))); }
  /** standard alphabet; padding may be left out, surplus bits must be zero; "bad" otherwise. Argument: hex of the text. */
  @TLAPlusOperator(identifier = "B64Dec", module = "Prim", warn = false)
  public static Value b64dec(Value x) {
    byte[] t = b(x);
    int n = t.length;
    while (n > 0 && t[n - 1] == '=') n--;
    for (int i = n; i < t.length; i++) if (i % 4 < 2) return v("bad");
    if (n % 4 == 1) return v("bad");
    java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
    int acc = 0, bits = 0;
    for (int i = 0; i < n; i++) {
      int d = B64.indexOf(t[i] & 0xff);
      if (d < 0) return v("bad");
      acc = (acc << 6 | d) & 0xfff; bits += 6;
      if (bits >= 8) { bits -= 8; o.write(acc >> bits); acc &= (1 << bits) - 1; }
    }
    if (acc != 0) return v("bad");
    return v(o.toByteArray());
  }

  // ---------------------------------------------------------------- word lists (the same as the definitions, kept)
  static final ConcurrentHashMap<String, TupleValue> LISTS = new ConcurrentHashMap<>();
  static final ConcurrentHashMap<String, Map<String, Integer>> PLACES = new ConcurrentHashMap<>();
  static TupleValue list(String l) {
    return LISTS.computeIfAbsent(l, k -> {
      try {
        String t = new String(java.nio.file.Files.readAllBytes(java.nio.file.Paths.get("wordlists/" + k + ".json")), StandardCharsets.UTF_8);
        java.util.regex.Matcher m = java.util.regex.Pattern.compile("\"([0-9a-f]*)\"").matcher(t);
        List<Value> r = new ArrayList<>();
        while (m.find()) r.add(v(m.group(1)));
        return new TupleValue(r.toArray(new Value[0]));
      } catch (java.io.IOException e) { throw new java.io.UncheckedIOException(e); }
    });
  }
  @TLAPlusOperator(identifier = "WordList", module = "Bip39", warn = false)
  public static Value wordList(Value l) { return list(s(l)); }
  @TLAPlusOperator(identifier = "Pos", module = "Bip39", warn = false)
  public static Value pos(Value l, Value w) {
    Integer i = PLACES.computeIfAbsent(s(l), k -> {
      Map<String, Integer> m = new HashMap<>();
      Value[] e = list(k).elems;
      for (int j = 0; j < e.length; j++) m.put(s(e[j]), j);
      return m;
    }).get(s(w));
    return IntValue.gen(i == null ? -1 : i);
  }

  // ---------------------------------------------------------------- JSON (RFC 8259, strict)
  static class Bad extends RuntimeException { Bad() { super("json", null, false, false); } }
  static final UniqueString T = UniqueString.uniqueStringOf("t"), A = UniqueString.uniqueStringOf("a"),
      K = UniqueString.uniqueStringOf("k"), V = UniqueString.uniqueStringOf("v");
  static Value node(String t, Value a) {
    return new RecordValue(new UniqueString[] {T, A}, new Value[] {v(t), a}, false);
  }
  static class Json {
    final byte[] d; int i = 0;
    Json(byte[] d) { this.d = d; }
    int peek() { return i < d.length ? d[i] & 0xff : -1; }
    void ws() { while (i < d.length && (d[i] == ' ' || d[i] == '\t' || d[i] == '\n' || d[i] == '\r')) i++; }
    Value value(int depth) {
      if (depth > 127) throw new Bad();
      ws();
      int c = peek();
      switch (c) {
        case '{': {
          i++; List<Value> kv = new ArrayList<>(); ws();
          if (peek() == '}') { i++; return node("obj", new TupleValue(new Value[0])); }
          while (true) {
            ws(); if (peek() != '"') throw new Bad();
            Value k = v(str()); ws(); if (peek() != ':') throw new Bad(); i++;
            Value x = value(depth + 1);
            kv.add(new RecordValue(new UniqueString[] {K, V}, new Value[] {k, x}, false));
            ws(); c = peek(); i++;
            if (c == '}') return node("obj", new TupleValue(kv.toArray(new Value[0])));
            if (c != ',') throw new Bad();
          }
        }
        case '[': {
          i++; List<Value> e = new ArrayList<>(); ws();
          if (peek() == ']') { i++; return node("arr", new TupleValue(new Value[0])); }
          while (true) {
            e.add(value(depth + 1)); ws(); c = peek(); i++;
            if (c == ']') return node("arr", new TupleValue(e.toArray(new Value[0])));
            if (c != ',') throw new Bad();
          }
        }
        case '"': return node("str", v(str()));
        case 't': lit("true"); return node("true", v(""));
        case 'f': lit("false"); return node("false", v(""));
        case 'n': lit("null"); return node("null", v(""));
        default: {
          int st = i;
          if (peek() == '-') i++;
          if (peek() == '0') i++; else { if (peek() < '1' || peek() > '9') throw new Bad(); digits(); }
          if (peek() >= '0' && peek() <= '9') throw new Bad();
          boolean frac = false;
          if (peek() == '.') { i++; digits(); frac = true; }
          if (peek() == 'e' || peek() == 'E') { i++; if (peek() == '+' || peek() == '-') i++; digits(); frac = true; }
          String raw = new String(d, st, i - st, StandardCharsets.US_ASCII);
          if (frac && Double.isInfinite(Double.parseDouble(raw))) throw new Bad();
          return node("num", v(raw));
        }
      }
    }
    void digits() { int st = i; while (peek() >= '0' && peek() <= '9') i++; if (i == st) throw new Bad(); }
    void lit(String x) { for (int k = 0; k < x.length(); k++, i++) if (peek() != x.charAt(k)) throw new Bad(); }
    int hex4() { int r = 0; for (int k = 0; k < 4; k++, i++) { int h = Character.digit(peek(), 16); if (h < 0) throw new Bad(); r = r * 16 + h; } return r; }
    /** hex of the string's UTF-8 */
    String str() {
      i++; java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
      while (true) {
        int c = peek(); i++;
        if (c < 0x20) throw new Bad();
        if (c == '"') break;
        if (c != '\\') { o.write(c); continue; }
        c = peek(); i++;
        switch (c) {
          case '"': case '\\': case '/': o.write(c); break;
          case 'b': o.write(8); break;
          case 'f': o.write(12); break;
          case 'n': o.write(10); break;
          case 'r': o.write(13); break;
          case 't': o.write(9); break;
          case 'u': {
            int u = hex4();
            if (u >= 0xdc00 && u <= 0xdfff) throw new Bad();
            if (u >= 0xd800 && u <= 0xdbff) {
              if (peek() != '\\') throw new Bad(); i++; if (peek() != 'u') throw new Bad(); i++;
              int w = hex4(); if (w < 0xdc00 || w > 0xdfff) throw new Bad();
              u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00);
            }
            byte[] e = new String(Character.toChars(u)).getBytes(StandardCharsets.UTF_8);
            o.write(e, 0, e.length);
            break;
          }
          default: throw new Bad();
        }
      }
      byte[] r = o.toByteArray();
      if (utf8(r) == null) throw new Bad();
      return hex(r);
    }
  }
  /** syntax tree [t, a] of a JSON document, t = "bad" when it is none */
  @TLAPlusOperator(identifier = "JSON", module = "Prim", warn = false)
  public static Value json(Value x) {
    try {
      Json j = new Json(b(x));
      Value r = j.value(0);
      j.ws();
      if (j.i != j.d.length) throw new Bad();
      return r;
    } catch (Bad e) { return node("bad", v("")); }
  }
}
