import tlc2.value.impl.*;
import java.math.BigInteger;
public class Big {
  static BigInteger big(Value v) { byte[] b = V.bytes(v); byte[] r = new byte[b.length + 1]; for (int i = 0; i < b.length; i++) r[b.length - i] = b[i]; return new BigInteger(r); }
  static Value val(BigInteger x) {
    byte[] b = x.toByteArray(); int n = b.length, z = 0;
    while (z < n && b[z] == 0) z++;
    byte[] r = new byte[n - z];
    for (int i = 0; i < r.length; i++) r[i] = b[n - 1 - i];
    return V.tuple(r);
  }
  public static Value BAdd(Value a, Value b) { return val(big(a).add(big(b))); }
  public static Value BSub(Value a, Value b) { return val(big(a).subtract(big(b))); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
  public static Value BMod(Value a, Value n) { return val(big(a).mod(big(n))); }
  public static Value BMulMod(Value a, Value b, Value n) { return val(big(a).multiply(big(b)).mod(big(n))); }
  public static Value TruncBits(Value a, Value k) { return val(big(a).and(BigInteger.ONE.shiftLeft(V.num(k)).subtract(BigInteger.ONE))); }
  public static Value PXor(Value a, Value b) { return val(big(a).xor(big(b))); }

  /* GF(2)[x] on long arrays */
  static long[] la(BigInteger x, int words) { long[] r = new long[words]; for (int i = 0; i < words; i++) r[i] = x.shiftRight(64 * i).longValue(); return r; }
  static BigInteger bi(long[] a) { byte[] r = new byte[8 * a.length + 1]; for (int i = 0; i < a.length; i++) for (int j = 0; j < 8; j++) r[r.length - 1 - 8 * i - j] = (byte) (a[i] >>> (8 * j)); return new BigInteger(r); }
  static BigInteger pmod(BigInteger a, BigInteger p) {
    int m = p.bitLength();
    // exponents of p below the leading one
    while (a.bitLength() >= m) {
      // fold: high part times (p - x^(m-1))
      BigInteger hi = a.shiftRight(m - 1);
      BigInteger low = a.xor(hi.shiftLeft(m - 1));
      BigInteger rest = p.clearBit(m - 1);
      for (int i = rest.getLowestSetBit(); i >= 0 && i < m; i = next(rest, i + 1)) low = low.xor(hi.shiftLeft(i));
      a = low;
    }
    return a;
  }
  static int next(BigInteger x, int i) { int n = x.bitLength(); while (i < n && !x.testBit(i)) i++; return i < n ? i : -1; }
  static BigInteger pmul(BigInteger a, BigInteger b) {
    int n = Math.max(a.bitLength(), b.bitLength()) / 64 + 1;
    long[] x = la(a, n), y = la(b, n), r = new long[2 * n + 1], sh = new long[n + 1];
    for (int bit = 0; bit < 64; bit++) {
      // sh = x << bit
      for (int i = 0; i <= n; i++) {
        long lo = i < n ? x[i] << bit : 0;
        long hi = i > 0 && bit > 0 ? x[i - 1] >>> (64 - bit) : 0;
        sh[i] = lo | hi;
      }
      for (int w = 0; w < n; w++) if ((y[w] >>> bit & 1) != 0) for (int i = 0; i <= n; i++) r[w + i] ^= sh[i];
    }
    return bi(r);
  }
  static BigInteger pinv(BigInteger a, BigInteger p) { // extended Euclid; 0 -> 0 as a^(2^m-2)
    if (a.signum() == 0) return a;
    BigInteger u = a, v = p, g1 = BigInteger.ONE, g2 = BigInteger.ZERO;
    while (!u.equals(BigInteger.ONE)) {
      if (u.signum() == 0) throw new RuntimeException("PInv: not invertible");
      int j = u.bitLength() - v.bitLength();
      if (j < 0) { BigInteger t = u; u = v; v = t; t = g1; g1 = g2; g2 = t; j = -j; }
      u = u.xor(v.shiftLeft(j)); g1 = g1.xor(g2.shiftLeft(j));
    }
    return pmod(g1, p);
  }
  public static Value PMod(Value a, Value p) { return val(pmod(big(a), big(p))); }
  public static Value PMulMod(Value a, Value b, Value p) { BigInteger q = big(p); return val(pmod(pmul(big(a), big(b)), q)); }
  public static Value PInv(Value a, Value p) { BigInteger q = big(p); return val(pinv(pmod(big(a), q), q)); }
}
