import java.security.MessageDigest;
import tlc2.value.impl.*;
public class Sha1 {
  static byte[] h(byte[] m) { try { return MessageDigest.getInstance("SHA-1").digest(m); } catch (Exception e) { throw new RuntimeException(e); } }
  public static Value Sha1(Value m) { return V.tuple(h(V.bytes(m))); }
  public static Value Sha1Times(Value m, Value n) { byte[] b = V.bytes(m); for (int i = V.num(n); i > 0; i--) b = h(b); return V.tuple(b); }
}
