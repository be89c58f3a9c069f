import tlc2.value.impl.*;
/** Conversions between TLC values and Java arrays, shared by the operator overrides. */
final class V {
  static byte[] bytes(Value v) {
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      byte[] r = new byte[e.length];
      for (int i = 0; i < r.length; i++) r[i] = (byte) ((IntValue) e[i]).val;
      return r;
    }
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("octet sequence expected: " + v);
    return bytes(t);
  }
  private static final IntValue[] INTS = new IntValue[256];
  static { for (int i = 0; i < 256; i++) INTS[i] = IntValue.gen(i); }
  static Value tuple(byte[] b) {
    Value[] e = new Value[b.length];
    for (int i = 0; i < b.length; i++) e[i] = INTS[b[i] & 255];
    return new TupleValue(e);
  }
  static int num(Value v) { return ((IntValue) v).val; }
}
