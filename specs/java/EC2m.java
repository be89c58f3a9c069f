import tlc2.value.impl.*;
import util.UniqueString;
import java.math.BigInteger;
import java.util.*;
public class EC2m {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  /** arithmetic in GF(2)[x]/p on long arrays; p sparse */
  static final class Fld {
    final BigInteger p; final int m, n; final int[] ex;
    Fld(BigInteger p) { this.p = p; m = p.bitLength() - 1; n = m / 64 + 1;
      List<Integer> l = new ArrayList<>(); for (int i = 0; i < m; i++) if (p.testBit(i)) l.add(i);
      ex = new int[l.size()]; for (int i = 0; i < ex.length; i++) ex[i] = l.get(i); }
    long[] of(BigInteger x) { return Big.la(Big.pmod(x, p), n); }
    BigInteger to(long[] a) { return Big.bi(a); }
    long[] red(long[] r) { // r has 2n words
      for (int i = r.length * 64 - 1; i >= m; i--)
        if ((r[i >> 6] >>> (i & 63) & 1) != 0) {
          r[i >> 6] ^= 1L << (i & 63);
          for (int e : ex) { int k = i - m + e; r[k >> 6] ^= 1L << (k & 63); }
        }
      return Arrays.copyOf(r, n);
    }
    long[] mul(long[] x, long[] y) {
      long[] r = new long[2 * n];
      long[] sh = new long[n + 1];
      for (int bit = 0; bit < 64; bit++) {
        boolean any = false; for (int w = 0; w < n; w++) any |= (y[w] >>> bit & 1) != 0;
        if (!any) continue;
        for (int i = 0; i <= n; i++) { long lo = i < n ? x[i] << bit : 0, hi = i > 0 && bit > 0 ? x[i - 1] >>> (64 - bit) : 0; sh[i] = lo | hi; }
        for (int w = 0; w < n; w++) if ((y[w] >>> bit & 1) != 0) for (int i = 0; i <= n && w + i < 2 * n; i++) r[w + i] ^= sh[i];
      }
      return red(r);
    }
    long[] sqr(long[] x) {
      long[] r = new long[2 * n];
      for (int i = 0; i < n; i++) { r[2 * i] = spread((int) x[i]); r[2 * i + 1] = spread((int) (x[i] >>> 32)); }
      return red(r);
    }
    static long spread(int v) { long x = v & 0xffffffffL; x = (x | x << 16) & 0x0000ffff0000ffffL; x = (x | x << 8) & 0x00ff00ff00ff00ffL; x = (x | x << 4) & 0x0f0f0f0f0f0f0f0fL; x = (x | x << 2) & 0x3333333333333333L; return (x | x << 1) & 0x5555555555555555L; }
    long[] add(long[] a, long[] b) { long[] r = a.clone(); for (int i = 0; i < n; i++) r[i] ^= b[i]; return r; }
    boolean zero(long[] a) { for (long x : a) if (x != 0) return false; return true; }
    long[] inv(long[] a) { return of(Big.pinv(to(a), p)); }
  }
  static Value f(RecordValue r, String k) { return (Value) r.apply(new StringValue(UniqueString.uniqueStringOf(k)), 0); }
  static Value pt(boolean inf, BigInteger x, BigInteger y) {
    return new RecordValue(new UniqueString[]{UniqueString.uniqueStringOf("inf"), UniqueString.uniqueStringOf("x"), UniqueString.uniqueStringOf("y")},
      new Value[]{inf ? BoolValue.ValTrue : BoolValue.ValFalse, Big.val(x), Big.val(y)}, false);
  }
  /** Lopez-Dahab projective scalar multiplication (different algorithm than the definition). */
  public static Value Mul(Value cv, Value kv, Value pv) {
    RecordValue c = (RecordValue) cv.toRcd(), p = (RecordValue) pv.toRcd();
    BigInteger k = Big.big(kv);
    if (((BoolValue) f(p, "inf")).val || k.signum() == 0) return pt(true, ZERO, ZERO);
    Fld F = new Fld(Big.big(f(c, "p")));
    long[] a = F.of(Big.big(f(c, "a"))), b = F.of(Big.big(f(c, "b")));
    long[] x = F.of(Big.big(f(p, "x"))), y = F.of(Big.big(f(p, "y")));
    long[] X = null, Y = null, Z = null; boolean inf = true;
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      if (!inf) { // double, LD: Z3=X^2 Z^2, X3=X^4+bZ^4, Y3=bZ^4 Z3 + X3(aZ3+Y^2+bZ^4)
        if (F.zero(X)) inf = true;
        else {
          long[] X2 = F.sqr(X), Z2 = F.sqr(Z), bZ4 = F.mul(b, F.sqr(Z2));
          long[] Z3 = F.mul(X2, Z2), X3 = F.add(F.sqr(X2), bZ4);
          long[] Y3 = F.add(F.mul(bZ4, Z3), F.mul(X3, F.add(F.add(F.mul(a, Z3), F.sqr(Y)), bZ4)));
          X = X3; Y = Y3; Z = Z3;
        }
      }
      if (k.testBit(i)) {
        if (inf) { X = x; Y = y; Z = F.of(ONE); inf = false; }
        else { // mixed add with affine (x,y), via affine test of equality
          long[] A = F.add(F.mul(y, F.sqr(Z)), Y), B = F.add(F.mul(x, Z), X);
          if (F.zero(B)) {
            if (!F.zero(A)) inf = true;
            else { // same point: double affine
              if (F.zero(x)) inf = true;
              else { long[] l = F.add(x, F.mul(y, F.inv(x))); long[] x3 = F.add(F.add(F.sqr(l), l), a); long[] y3 = F.add(F.sqr(x), F.mul(F.add(l, F.of(ONE)), x3)); X = x3; Y = y3; Z = F.of(ONE); }
            }
          } else {
            long[] C = F.mul(Z, B), D = F.mul(F.sqr(B), F.add(C, F.mul(a, F.sqr(Z))));
            long[] Z3 = F.sqr(C), E = F.mul(A, C), X3 = F.add(F.add(F.sqr(A), D), E);
            long[] Fv = F.add(X3, F.mul(x, Z3)), G = F.mul(F.add(x, y), F.sqr(Z3));
            long[] Y3 = F.add(F.mul(F.add(E, Z3), Fv), G);
            X = X3; Y = Y3; Z = Z3;
          }
        }
      }
    }
    if (inf) return pt(true, ZERO, ZERO);
    long[] zi = F.inv(Z);
    return pt(false, F.to(F.mul(X, zi)), F.to(F.mul(Y, F.sqr(zi))));
  }
  public static Value Trace(Value z, Value p) {
    Fld F = new Fld(Big.big(p)); long[] s = F.of(Big.big(z)), r = s;
    for (int i = 1; i < F.m; i++) { s = F.sqr(s); r = F.add(r, s); }
    return IntValue.gen((int) r[0]);
  }
  public static Value HalfTrace(Value z, Value p) {
    Fld F = new Fld(Big.big(p)); long[] s = F.of(Big.big(z)), r = s;
    for (int i = 1; i <= (F.m - 1) / 2; i++) { s = F.sqr(F.sqr(s)); r = F.add(r, s); }
    return Big.val(F.to(r));
  }
}
