import tlc2.value.impl.*;
public class Rbg {
  private static int[][] T;
  static synchronized int[][] table() {
    if (T == null) {
      int[] d = {169,214,235,69,241,60,112,130,128,196,150,123,35,31,94,173,246,88,235,164,192,55,41,29,56,217,107,240,37,202,78,23,248,233,114,13,198,21,180,58,40,151,95,11,193,222,163,100,56,181,100,234,44,23,159,208,18,62,109,184,250,197,121,4};
      byte[] b = new byte[64]; for (int i = 0; i < 64; i++) b[i] = (byte) d[i];
      T = GostBlock.expand(b);
    }
    return T;
  }
  public static Value RbgRun(Value key, Value iv, Value sv, Value nv) {
    int n = V.num(nv); int[][] t = table(); int[] k = GostBlock.key(V.bytes(key));
    byte[] I = V.bytes(iv), s = V.bytes(sv).clone(), x = new byte[8], r = new byte[n + 8];
    for (int i = 0; i < n; i++) {
      int o = 0;
      for (int j = 0; j < 8; j++) {
        for (int q = 0; q < 8; q++) x[q] = (byte) (I[q] ^ s[q]);
        GostBlock.crypt(t, k, x, 0, x, 0, GostBlock.EI);
        o |= (x[0] & 1) << j;
        for (int q = 0; q < 8; q++) s[q] = (byte) (I[q] ^ x[q]);
        GostBlock.crypt(t, k, s, 0, s, 0, GostBlock.EI);
      }
      r[i] = (byte) o;
    }
    System.arraycopy(s, 0, r, n, 8);
    return V.tuple(r);
  }
}
