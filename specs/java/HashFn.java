import tlc2.value.impl.*;
public class HashFn {
  static final java.util.concurrent.ConcurrentHashMap<String, byte[]> memo = new java.util.concurrent.ConcurrentHashMap<>();
  static byte[] hash(int[][] t, byte[] m) {
    byte[] h = new byte[32], s = new byte[32], l = new byte[32];
    int full = m.length / 32 * 32;
    byte[] last = new byte[32];
    for (int p = 0; p < full; p += 32) { Gost34311.step(t, h, m, p); Gost34311.add(s, m, p); }
    if (m.length == 0) Gost34311.step(t, h, last, 0);
    if (m.length > full) { System.arraycopy(m, full, last, 0, m.length - full); Gost34311.step(t, h, last, 0); Gost34311.add(s, last, 0); }
    long bits = 8L * m.length;
    for (int i = 0; i < 8; i++) l[i] = (byte) (bits >>> 8 * i);
    Gost34311.step(t, h, l, 0); Gost34311.step(t, h, s, 0);
    return h;
  }
  public static Value HashTimes(Value sb, Value m, Value n) {
    String key = java.util.Arrays.toString(V.bytes(sb)) + java.util.Arrays.toString(V.bytes(m)) + V.num(n);
    byte[] seen = memo.get(key);
    if (seen != null) return V.tuple(seen);
    int[][] t = GostBlock.table(V.bytes(sb)); byte[] b = V.bytes(m);
    for (int i = V.num(n); i > 0; i--) b = hash(t, b);
    memo.put(key, b);
    return V.tuple(b);
  }
  static final byte[] DEF = deflt();
  static byte[] deflt() { String h = "a9d6eb45f13c708280c4967b231f5eadf658eba4c037291d38d96bf025ca4e17f8e9720dc615b43a28975f0bc1dea36438b564ea2c179fd0123e6db8fac57904"; byte[] b = new byte[64]; for (int i = 0; i < 64; i++) b[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16); return b; }
  static byte[] hmac(int[][] t, byte[] k, byte[] m) {
    if (k.length > 32) k = hash(t, k);
    byte[] a = new byte[32 + m.length], b = new byte[64];
    for (int i = 0; i < 32; i++) { byte x = i < k.length ? k[i] : 0; a[i] = (byte) (x ^ 54); b[i] = (byte) (x ^ 92); }
    System.arraycopy(m, 0, a, 32, m.length);
    System.arraycopy(hash(t, a), 0, b, 32, 32);
    return hash(t, b);
  }
  public static Value Hmac(Value k, Value m) { return V.tuple(hmac(GostBlock.table(DEF), V.bytes(k), V.bytes(m))); }
  public static Value Pbkdf2Block(Value pw, Value salt, Value iter, Value n) {
    byte[] p = V.bytes(pw), s = V.bytes(salt); int it = V.num(iter), x = V.num(n);
    String key = "p" + java.util.Arrays.toString(p) + java.util.Arrays.toString(s) + it + "/" + x;
    byte[] seen = memo.get(key);
    if (seen != null) return V.tuple(seen);
    int[][] t = GostBlock.table(DEF);
    byte[] m = java.util.Arrays.copyOf(s, s.length + 4);
    for (int i = 0; i < 4; i++) m[s.length + i] = (byte) (x >>> 24 - 8 * i);
    byte[] u = hmac(t, p, m), r = u.clone();
    for (int i = 1; i < it; i++) { u = hmac(t, p, u); for (int j = 0; j < 32; j++) r[j] ^= u[j]; }
    memo.put(key, r);
    return V.tuple(r);
  }
}
