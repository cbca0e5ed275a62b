// Trusted primitives behind spec/Prims.tla: byte/hex conversion, big integers,
// standard hash functions.  Nothing here comes from the code under test.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;

public class Prims {
  // ---------------------------------------------------------------- values
  static Value[] elems(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Prims: not a sequence: " + v);
    return t.elems;
  }
  static byte[] bytes(Value v) {
    Value[] e = elems(v);
    byte[] r = new byte[e.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) e[i]).val;
    return r;
  }
  static final IntValue[] SMALL = new IntValue[256];
  static { for (int i = 0; i < 256; i++) SMALL[i] = IntValue.gen(i); }
  static Value tup(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = SMALL[b[i] & 255];
    return new TupleValue(e);
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Value strv(String s) { return new StringValue(s); }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // big integers: <<sign, 24-bit limbs most significant first>>, zero is <<0>>
  static BigInteger big(Value v) {
    Value[] e = elems(v);
    int sg = ((IntValue) e[0]).val;
    if (sg == 0) return BigInteger.ZERO;
    byte[] m = new byte[3 * (e.length - 1)];
    for (int k = 1; k < e.length; k++) {
      int x = ((IntValue) e[k]).val;
      m[3*k-3] = (byte)(x >> 16); m[3*k-2] = (byte)(x >> 8); m[3*k-1] = (byte)x;
    }
    return new BigInteger(sg, m);
  }
  static Value bigv(BigInteger b) {
    if (b.signum() == 0) return new TupleValue(new Value[]{SMALL[0]});
    byte[] m = b.abs().toByteArray();
    int off = m[0] == 0 ? 1 : 0, n = m.length - off, limbs = (n + 2) / 3;
    Value[] e = new Value[limbs + 1];
    e[0] = IntValue.gen(b.signum());
    int p = m.length;
    for (int k = limbs; k >= 1; k--) {
      int x = 0;
      for (int j = 0; j < 3; j++) { p--; if (p >= off) x |= (m[p] & 255) << (8*j); }
      e[k] = IntValue.gen(x);
    }
    return new TupleValue(e);
  }

  // ---------------------------------------------------------------- text
  static final char[] HEX = "0123456789abcdef".toCharArray();
  static String hex(byte[] b) {
    char[] c = new char[2*b.length];
    for (int k = 0; k < b.length; k++) { c[2*k] = HEX[(b[k]>>4)&15]; c[2*k+1] = HEX[b[k]&15]; }
    return new String(c);
  }
  static byte[] unhex(String s) {
    byte[] r = new byte[s.length()/2];
    for (int k = 0; k < r.length; k++) r[k] = (byte) Integer.parseInt(s.substring(2*k, 2*k+2), 16);
    return r;
  }
  public static Value HexToBytes(Value s) { return tup(unhex(str(s))); }
  public static Value BytesToHex(Value b) { return strv(hex(bytes(b))); }
  public static Value StrToBytes(Value s) { return tup(str(s).getBytes(StandardCharsets.UTF_8)); }
  public static Value BytesToStr(Value b) { return strv(new String(bytes(b), StandardCharsets.UTF_8)); }
  public static Value IntToStr(Value n) { return strv(Integer.toString(i(n))); }
  public static Value StrCat(Value a, Value b) { return strv(str(a) + str(b)); }
  public static Value JoinStr(Value seq, Value sep) {
    Value[] e = elems(seq); StringBuilder sb = new StringBuilder();
    for (int k = 0; k < e.length; k++) { if (k > 0) sb.append(str(sep)); sb.append(str(e[k])); }
    return strv(sb.toString());
  }
  public static Value SplitStr(Value s, Value sep) {
    String[] p = str(s).split(java.util.regex.Pattern.quote(str(sep)), -1);
    Value[] e = new Value[p.length];
    for (int k = 0; k < p.length; k++) e[k] = strv(p[k]);
    return new TupleValue(e);
  }
  // flatten a sequence of byte strings
  public static Value FlatCat(Value seq) {
    Value[] e = elems(seq); int n = 0; Value[][] parts = new Value[e.length][];
    for (int k = 0; k < e.length; k++) { parts[k] = elems((Value) e[k]); n += parts[k].length; }
    Value[] r = new Value[n]; int p = 0;
    for (Value[] q : parts) { System.arraycopy(q, 0, r, p, q.length); p += q.length; }
    return new TupleValue(r);
  }
  public static Value XorBytes(Value a, Value b) {
    byte[] x = bytes(a), y = bytes(b), r = new byte[x.length];
    for (int k = 0; k < r.length; k++) r[k] = (byte)(x[k] ^ y[k]);
    return tup(r);
  }

  // ---------------------------------------------------------------- big integers
  public static Value Big(Value n) { return bigv(BigInteger.valueOf(i(n))); }
  public static Value BigDec(Value s) { return bigv(new BigInteger(str(s))); }
  public static Value BigHex(Value s) { String t = str(s); return bigv(t.isEmpty() ? BigInteger.ZERO : new BigInteger(t, 16)); }
  public static Value BigToDec(Value a) { return strv(big(a).toString()); }
  public static Value BigOfBytes(Value b) { return bigv(new BigInteger(1, bytes(b))); }
  public static Value BigToMinBytes(Value a) {
    byte[] m = big(a).abs().toByteArray();
    int off = 0; while (off < m.length && m[off] == 0) off++;
    return tup(Arrays.copyOfRange(m, off, m.length));
  }
  // big-endian, padded to n bytes (fails if it does not fit)
  public static Value BigToBytes(Value a, Value n) {
    byte[] m = big(a).abs().toByteArray();
    int off = 0; while (off < m.length && m[off] == 0) off++;
    int len = m.length - off, want = i(n);
    if (len > want) throw new RuntimeException("BigToBytes: value needs " + len + " bytes, asked for " + want);
    byte[] r = new byte[want];
    System.arraycopy(m, off, r, want - len, len);
    return tup(r);
  }
  public static Value BigToInt(Value a) { return IntValue.gen(big(a).intValueExact()); }
  public static Value BAdd(Value a, Value b) { return bigv(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return bigv(big(a).subtract(big(b))); }
  public static Value BMul(Value a, Value b) { return bigv(big(a).multiply(big(b))); }
  public static Value BDiv(Value a, Value b) { return bigv(big(a).divide(big(b))); }      // truncated
  public static Value BMod(Value a, Value m) { return bigv(big(a).mod(big(m))); }          // Euclidean
  public static Value BModInv(Value a, Value m) { return bigv(big(a).modInverse(big(m))); }
  public static Value BModPow(Value a, Value e, Value m) { return bigv(big(a).modPow(big(e), big(m))); }
  public static Value BGcd(Value a, Value b) { return bigv(big(a).gcd(big(b))); }
  public static Value BMulMod(Value a, Value b, Value m) { return bigv(big(a).multiply(big(b)).mod(big(m))); }
  public static Value BAddMod(Value a, Value b, Value m) { return bigv(big(a).add(big(b)).mod(big(m))); }
  public static Value BSubMod(Value a, Value b, Value m) { return bigv(big(a).subtract(big(b)).mod(big(m))); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value BLt(Value a, Value b) { return bool(big(a).compareTo(big(b)) < 0); }
  public static Value BLeq(Value a, Value b) { return bool(big(a).compareTo(big(b)) <= 0); }
  public static Value BShr(Value a, Value n) { return bigv(big(a).shiftRight(i(n))); }
  public static Value BShl(Value a, Value n) { return bigv(big(a).shiftLeft(i(n))); }
  public static Value BBit(Value a, Value n) { return bool(big(a).testBit(i(n))); }
  public static Value BBitLen(Value a) { return IntValue.gen(big(a).bitLength()); }
  public static Value BIsProbablePrime(Value a) { return bool(big(a).isProbablePrime(64)); }

  // ---------------------------------------------------------------- hashes
  public static Value Sha256(Value b) throws Exception { return tup(MessageDigest.getInstance("SHA-256").digest(bytes(b))); }
  public static Value Sha1(Value b) throws Exception { return tup(MessageDigest.getInstance("SHA-1").digest(bytes(b))); }
  public static Value Sha512(Value b) throws Exception { return tup(MessageDigest.getInstance("SHA-512").digest(bytes(b))); }
  static byte[] hmac(String alg, byte[] key, byte[] msg) throws Exception {
    Mac m = Mac.getInstance(alg);
    // HMAC pads short keys with zeros, so one zero byte is the same key as none.
    m.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, alg));
    return m.doFinal(msg);
  }
  public static Value HmacSha256(Value k, Value m) throws Exception { return tup(hmac("HmacSHA256", bytes(k), bytes(m))); }
  public static Value HmacSha512(Value k, Value m) throws Exception { return tup(hmac("HmacSHA512", bytes(k), bytes(m))); }
  public static Value HmacSha1(Value k, Value m) throws Exception { return tup(hmac("HmacSHA1", bytes(k), bytes(m))); }
  public static Value Ripemd160(Value b) { return tup(ripemd(bytes(b))); }

  static final int[] RL = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static final int[] RR = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static final int[] SL = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static final int[] SR = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static final int[] KL = {0,0x5a827999,0x6ed9eba1,0x8f1bbcdc,0xa953fd4e};
  static final int[] KR = {0x50a28be6,0x5c4dd124,0x6d703ef3,0x7a6d76e9,0};
  static int f(int j, int x, int y, int z) {
    switch (j) { case 0: return x^y^z; case 1: return (x&y)|(~x&z); case 2: return (x|~y)^z; case 3: return (x&z)|(y&~z); default: return x^(y|~z); }
  }
  static byte[] ripemd(byte[] msg) {
    int len = msg.length, tot = ((len + 8) / 64 + 1) * 64;
    byte[] d = Arrays.copyOf(msg, tot); d[len] = (byte)0x80;
    long bits = 8L * len;
    for (int k = 0; k < 8; k++) d[tot - 8 + k] = (byte)(bits >>> (8*k));
    int[] h = {0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};
    int[] X = new int[16];
    for (int o = 0; o < tot; o += 64) {
      for (int k = 0; k < 16; k++) X[k] = (d[o+4*k]&255)|(d[o+4*k+1]&255)<<8|(d[o+4*k+2]&255)<<16|(d[o+4*k+3]&255)<<24;
      int a=h[0],b=h[1],c=h[2],e=h[3],g=h[4], A=a,B=b,C=c,E=e,G=g;
      for (int j = 0; j < 80; j++) {
        int t = Integer.rotateLeft(a + f(j/16,b,c,e) + X[RL[j]] + KL[j/16], SL[j]) + g;
        a=g; g=e; e=Integer.rotateLeft(c,10); c=b; b=t;
        t = Integer.rotateLeft(A + f(4-j/16,B,C,E) + X[RR[j]] + KR[j/16], SR[j]) + G;
        A=G; G=E; E=Integer.rotateLeft(C,10); C=B; B=t;
      }
      int t=h[1]+c+E; h[1]=h[2]+e+G; h[2]=h[3]+g+A; h[3]=h[4]+a+B; h[4]=h[0]+b+C; h[0]=t;
    }
    byte[] r = new byte[20];
    for (int k = 0; k < 20; k++) r[k] = (byte)(h[k/4] >>> (8*(k%4)));
    return r;
  }

  // ---------------------------------------------------------------- secp256k1 (points are <<>> for infinity or <<x, y>>)
  static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
  static BigInteger[] jac(BigInteger[] a) { return a == null ? null : new BigInteger[]{a[0], a[1], BigInteger.ONE}; }
  static BigInteger[] jdbl(BigInteger[] p) {
    if (p == null || p[1].signum() == 0) return null;
    BigInteger y2 = p[1].multiply(p[1]).mod(P), s = p[0].multiply(y2).shiftLeft(2).mod(P), m = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).mod(P);
    BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(P);
    return new BigInteger[]{x, m.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(P), p[1].multiply(p[2]).shiftLeft(1).mod(P)};
  }
  static BigInteger[] jadd(BigInteger[] p, BigInteger[] q) {
    if (p == null) return q;
    if (q == null) return p;
    BigInteger z1 = p[2].multiply(p[2]).mod(P), z2 = q[2].multiply(q[2]).mod(P);
    BigInteger u1 = p[0].multiply(z2).mod(P), u2 = q[0].multiply(z1).mod(P);
    BigInteger s1 = p[1].multiply(q[2]).multiply(z2).mod(P), s2 = q[1].multiply(p[2]).multiply(z1).mod(P);
    if (u1.equals(u2)) return s1.equals(s2) ? jdbl(p) : null;
    BigInteger h = u2.subtract(u1), r = s2.subtract(s1), h2 = h.multiply(h).mod(P), h3 = h.multiply(h2).mod(P), v = u1.multiply(h2).mod(P);
    BigInteger x = r.multiply(r).subtract(h3).subtract(v.shiftLeft(1)).mod(P);
    return new BigInteger[]{x, r.multiply(v.subtract(x)).subtract(s1.multiply(h3)).mod(P), p[2].multiply(q[2]).multiply(h).mod(P)};
  }
  // k times the affine point (a tuple of two big integers, or empty for infinity), k >= 0
  public static Value SecpMul(Value k, Value pt) {
    Value[] e = elems(pt);
    if (e.length == 0) return new TupleValue(new Value[0]);
    BigInteger[] p = {big(e[0]), big(e[1]), BigInteger.ONE}, r = null;
    BigInteger n = big(k);
    for (int b = n.bitLength() - 1; b >= 0; b--) {
      r = jdbl(r);
      if (n.testBit(b)) r = jadd(r, p);
    }
    if (r == null) return new TupleValue(new Value[0]);
    BigInteger zi = r[2].modInverse(P), z2 = zi.multiply(zi).mod(P);
    return new TupleValue(new Value[]{bigv(r[0].multiply(z2).mod(P)), bigv(r[1].multiply(z2).multiply(zi).mod(P))});
  }

  // ---------------------------------------------------------------- integer bit operations
  public static Value IXor(Value a, Value b) { return IntValue.gen(i(a) ^ i(b)); }
  public static Value IAnd(Value a, Value b) { return IntValue.gen(i(a) & i(b)); }
  public static Value IShr(Value a, Value n) { return IntValue.gen(i(a) >>> i(n)); }

  // ---------------------------------------------------------------- output side channel
  static java.io.PrintWriter out;
  static synchronized void line(String s) {
    try {
      if (out == null) {
        out = new java.io.PrintWriter(new java.io.BufferedWriter(new java.io.OutputStreamWriter(
          new java.io.FileOutputStream(System.getProperty("verif.out"), true), StandardCharsets.UTF_8), 1 << 16));
        Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (Prims.class) { out.flush(); } }));
      }
      out.println(s);
    } catch (java.io.IOException e) { throw new RuntimeException(e); }
  }
  // Writes one line (a string) to the file the run names in -Dverif.out; always TRUE.
  public static Value EmitLine(Value s) { line(str(s)); return BoolValue.ValTrue; }

  // ---------------------------------------------------------------- memo of a pure operator's result
  static final ConcurrentHashMap<String, Value> memo = new ConcurrentHashMap<>();
  public static Value MemoHas(Value k) { return bool(memo.containsKey(str(k))); }
  public static Value MemoGet(Value k) { return memo.get(str(k)); }
  public static Value MemoPut(Value k, Value v) { if (memo.size() < 200000) memo.put(str(k), v); return v; }
}
