import tlc2.value.impl.*;
public class Gost34311 {
  static final byte[] C3 = new byte[32];
  static { for (int i : new int[]{31,29,28,24,23,20,18,17,14,12,10,8,7,5,3,1}) C3[i] = -1; }
  static void a(long[] y) { long t = y[0] ^ y[1]; y[0] = y[1]; y[1] = y[2]; y[2] = y[3]; y[3] = t; }
  static long ld(byte[] s, int p) { long r = 0; for (int i = 7; i >= 0; i--) r = r << 8 | (s[p + i] & 255); return r; }
  static void keyOf(long[] u, long[] v, int[] k) {
    long w0 = u[0] ^ v[0], w1 = u[1] ^ v[1], w2 = u[2] ^ v[2], w3 = u[3] ^ v[3];
    for (int j = 0; j < 8; j++) {
      int sh = 8 * j;
      k[j] = (int) (w0 >>> sh & 255) | (int) (w1 >>> sh & 255) << 8 | (int) (w2 >>> sh & 255) << 16 | (int) (w3 >>> sh & 255) << 24;
    }
  }
  /** appends n words of the psi recurrence to y, whose current window starts at b */
  static int psiN(int[] y, int n, int b) {
    for (int e = b + n; b < e; b++) y[b + 16] = y[b] ^ y[b + 1] ^ y[b + 2] ^ y[b + 3] ^ y[b + 12] ^ y[b + 15];
    return b;
  }
  private static final ThreadLocal<int[][]> tmp = ThreadLocal.withInitial(() -> new int[][]{new int[8], new int[8], new int[8], new int[8], new int[16 + 74]});
  static void step(int[][] t, byte[] H, byte[] M, int mp) {
    long[] u = new long[4], v = new long[4];
    for (int i = 0; i < 4; i++) { u[i] = ld(H, 8 * i); v[i] = ld(M, mp + 8 * i); }
    int[][] k = tmp.get();
    for (int i = 0; i < 4; i++) {
      if (i > 0) { a(u); a(v); a(v); if (i == 2) for (int q = 0; q < 4; q++) u[q] ^= ld(C3, 8 * q); }
      keyOf(u, v, k[i]);
    }
    // four independent encryptions side by side
    int[] k0 = k[0], k1 = k[1], k2 = k[2], k3 = k[3], t0 = t[0], t1 = t[1], t2 = t[2], t3 = t[3], EI = GostBlock.EI;
    int a0 = GostBlock.w(H, 0), b0 = GostBlock.w(H, 4), a1 = GostBlock.w(H, 8), b1 = GostBlock.w(H, 12);
    int a2 = GostBlock.w(H, 16), b2 = GostBlock.w(H, 20), a3 = GostBlock.w(H, 24), b3 = GostBlock.w(H, 28);
    for (int i = 0; i < 32; i++) {
      int j = EI[i], x0 = a0 + k0[j], x1 = a1 + k1[j], x2 = a2 + k2[j], x3 = a3 + k3[j];
      int n0 = b0 ^ t0[x0 & 255] ^ t1[x0 >>> 8 & 255] ^ t2[x0 >>> 16 & 255] ^ t3[x0 >>> 24];
      int n1 = b1 ^ t0[x1 & 255] ^ t1[x1 >>> 8 & 255] ^ t2[x1 >>> 16 & 255] ^ t3[x1 >>> 24];
      int n2 = b2 ^ t0[x2 & 255] ^ t1[x2 >>> 8 & 255] ^ t2[x2 >>> 16 & 255] ^ t3[x2 >>> 24];
      int n3 = b3 ^ t0[x3 & 255] ^ t1[x3 >>> 8 & 255] ^ t2[x3 >>> 16 & 255] ^ t3[x3 >>> 24];
      b0 = a0; a0 = n0; b1 = a1; a1 = n1; b2 = a2; a2 = n2; b3 = a3; a3 = n3;
    }
    int[] y = k[4];
    y[0] = b0 & 65535; y[1] = b0 >>> 16; y[2] = a0 & 65535; y[3] = a0 >>> 16;
    y[4] = b1 & 65535; y[5] = b1 >>> 16; y[6] = a1 & 65535; y[7] = a1 >>> 16;
    y[8] = b2 & 65535; y[9] = b2 >>> 16; y[10] = a2 & 65535; y[11] = a2 >>> 16;
    y[12] = b3 & 65535; y[13] = b3 >>> 16; y[14] = a3 & 65535; y[15] = a3 >>> 16;
    int b = psiN(y, 12, 0);
    for (int i = 0; i < 16; i++) y[b + i] ^= M[mp + 2 * i] & 255 | (M[mp + 2 * i + 1] & 255) << 8;
    b = psiN(y, 1, b);
    for (int i = 0; i < 16; i++) y[b + i] ^= H[2 * i] & 255 | (H[2 * i + 1] & 255) << 8;
    b = psiN(y, 61, b);
    for (int i = 0; i < 16; i++) { H[2 * i] = (byte) y[b + i]; H[2 * i + 1] = (byte) (y[b + i] >> 8); }
  }
  static void add(byte[] s, byte[] m, int mp) {
    int c = 0;
    for (int i = 0; i < 32; i++) { c += (s[i] & 255) + (m[mp + i] & 255); s[i] = (byte) c; c >>= 8; }
  }
  static void blocks(int[][] t, byte[] h, byte[] s, byte[] d) {
    for (int p = 0; p + 32 <= d.length; p += 32) { step(t, h, d, p); add(s, d, p); }
  }
  public static Value HashStep(Value sb, Value H, Value M) {
    byte[] h = V.bytes(H);
    step(GostBlock.table(V.bytes(sb)), h, V.bytes(M), 0);
    return V.tuple(h);
  }
  public static Value Add256(Value a, Value b) { byte[] s = V.bytes(a); add(s, V.bytes(b), 0); return V.tuple(s); }
  public static Value Absorb(Value sb, Value H, Value S, Value data) { return AbsorbRep(sb, H, S, data, IntValue.gen(1)); }
  public static Value AbsorbRep(Value sb, Value H, Value S, Value pat, Value n) {
    byte[] h = V.bytes(H), s = V.bytes(S), d = V.bytes(pat);
    int[][] t = GostBlock.table(V.bytes(sb));
    for (int r = V.num(n); r > 0; r--)
      blocks(t, h, s, d);
    return new TupleValue(new Value[]{V.tuple(h), V.tuple(s)});
  }
}
