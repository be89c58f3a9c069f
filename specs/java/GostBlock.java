import tlc2.value.impl.*;
import java.util.*;
public class GostBlock {
  /** expanded table for a packed S-box: tab[k][byte] */
  static int[][] expand(byte[] sb) {
    int[][] t = new int[4][256];
    for (int k = 0; k < 4; k++)
      for (int b = 0; b < 256; b++) {
        int lo = nib(sb, 2 * k, b & 15), hi = nib(sb, 2 * k + 1, b >> 4);
        int v = (lo | hi << 4) << (8 * k);
        t[k][b] = v << 11 | v >>> 21;
      }
    return t;
  }
  static int nib(byte[] sb, int row, int j) {
    int b = sb[8 * row + j / 2] & 255;
    return j % 2 == 0 ? b >> 4 : b & 15;
  }
  private static final ThreadLocal<Object[]> last = ThreadLocal.withInitial(() -> new Object[2]);
  static int[][] table(byte[] sb) {
    Object[] l = last.get();
    if (l[0] != null && Arrays.equals((byte[]) l[0], sb)) return (int[][]) l[1];
    l[0] = sb.clone(); l[1] = expand(sb);
    return (int[][]) l[1];
  }
  static int w(byte[] s, int i) {
    return s[i] & 255 | (s[i + 1] & 255) << 8 | (s[i + 2] & 255) << 16 | (s[i + 3] & 255) << 24;
  }
  static int f(int[][] t, int x) {
    return t[0][x & 255] ^ t[1][x >>> 8 & 255] ^ t[2][x >>> 16 & 255] ^ t[3][x >>> 24];
  }
  static void put(int v, byte[] o, int p) { o[p] = (byte) v; o[p + 1] = (byte) (v >> 8); o[p + 2] = (byte) (v >> 16); o[p + 3] = (byte) (v >> 24); }
  static final int[] EI = new int[32], DI = new int[32];
  static { for (int i = 0; i < 32; i++) { EI[i] = i < 24 ? i % 8 : 31 - i; DI[i] = i < 8 ? i : (31 - i) % 8; } }
  static void crypt(int[][] t, int[] k, byte[] in, int ip, byte[] out, int op, int[] idx) {
    int a = w(in, ip), b = w(in, ip + 4);
    for (int i = 0; i < 32; i++) { int n = b ^ f(t, a + k[idx[i]]); b = a; a = n; }
    put(b, out, op); put(a, out, op + 4);
  }
  static int[] key(byte[] k) { int[] r = new int[8]; for (int i = 0; i < 8; i++) r[i] = w(k, 4 * i); return r; }
  private static Value run(Value sb, Value key, Value blk, int[] idx) {
    byte[] o = new byte[8];
    crypt(table(V.bytes(sb)), key(V.bytes(key)), V.bytes(blk), 0, o, 0, idx);
    return V.tuple(o);
  }
  public static Value GostEnc(Value sb, Value key, Value blk) { return run(sb, key, blk, EI); }
  public static Value GostDec(Value sb, Value key, Value blk) { return run(sb, key, blk, DI); }
  public static Value XorBytes(Value a, Value b) {
    byte[] x = V.bytes(a), y = V.bytes(b), r = new byte[x.length];
    for (int i = 0; i < r.length; i++) r[i] = (byte) (x[i] ^ y[i]);
    return V.tuple(r);
  }
}
