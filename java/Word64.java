// TLC module override for spec/Word64.tla: same functions on native longs.
import tlc2.value.impl.*;
import util.UniqueString;

public class Word64 {
  static final IntValue[] TRUEISH = new IntValue[0];
  private static long w(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    long r = 0;
    for (int i = 3; i >= 0; i--) r = (r << 16) | (((IntValue) t.elems[i]).val & 0xffffL);
    return r;
  }
  private static Value v(final long x) {
    return new TupleValue(new Value[] { IntValue.gen((int) (x & 0xffff)), IntValue.gen((int) ((x >>> 16) & 0xffff)),
        IntValue.gen((int) ((x >>> 32) & 0xffff)), IntValue.gen((int) ((x >>> 48) & 0xffff)) });
  }
  private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static int n(final Value x) { return ((IntValue) x).val; }
  public static Value WAdd(Value x, Value y) { return v(w(x) + w(y)); }
  public static Value WSub(Value x, Value y) { return v(w(x) - w(y)); }
  public static Value WNeg(Value x) { return v(-w(x)); }
  public static Value WNot(Value x) { return v(~w(x)); }
  public static Value WMul(Value x, Value y) { return v(w(x) * w(y)); }
  public static Value FMul(Value x, Value y) {
    final long a = Math.abs(w(x)), c = Math.abs(w(y));
    final long hi = Math.multiplyHigh(a, c) + ((a >> 63) & c) + ((c >> 63) & a), lo = a * c;
    final long r = (hi << 40) | (lo >>> 24);
    return v((w(x) < 0) != (w(y) < 0) ? -r : r);
  }
  public static Value WXor(Value x, Value y) { return v(w(x) ^ w(y)); }
  public static Value WAnd(Value x, Value y) { return v(w(x) & w(y)); }
  public static Value WOr(Value x, Value y) { return v(w(x) | w(y)); }
  public static Value WShl(Value x, Value k) { return v(n(k) > 63 ? 0 : w(x) << n(k)); }
  public static Value WShr(Value x, Value k) { return v(n(k) > 63 ? 0 : w(x) >>> n(k)); }
  public static Value WSar(Value x, Value k) { return v(w(x) >> (n(k) > 63 ? 63 : n(k))); }
  public static Value WULt(Value x, Value y) { return b(Long.compareUnsigned(w(x), w(y)) < 0); }
  public static Value WSLt(Value x, Value y) { return b(w(x) < w(y)); }
  public static Value WSLe(Value x, Value y) { return b(w(x) <= w(y)); }
  public static Value WAbs(Value x) { return v(Math.abs(w(x))); }
  public static Value WFromInt(Value x) { return v((long) n(x)); }
  public static Value WAbsLe(Value d, Value e) { return b(Long.compareUnsigned(Math.abs(w(d)), w(e)) <= 0); }
  public static Value WTruncDivInt(Value x, Value d) { return v(w(x) / n(d)); }
  public static Value WSum(Value s) {
    final TupleValue t = (TupleValue) s.toTuple(); long r = 0;
    for (Value e : t.elems) r += w(e);
    return v(r);
  }
  public static Value WXorAll(Value s) {
    final TupleValue t = (TupleValue) s.toTuple(); long r = 0;
    for (Value e : t.elems) r ^= w(e);
    return v(r);
  }
  private interface F { long f(long a, long b); }
  private static Value zip(Value x, Value y, F f) {
    final TupleValue a = (TupleValue) x.toTuple(), c = (TupleValue) y.toTuple();
    final Value[] r = new Value[a.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = v(f.f(w(a.elems[i]), w(c.elems[i])));
    return new TupleValue(r);
  }
  public static Value VAdd(Value x, Value y) { return zip(x, y, (a, c) -> a + c); }
  public static Value VSub(Value x, Value y) { return zip(x, y, (a, c) -> a - c); }
  public static Value VXor(Value x, Value y) { return zip(x, y, (a, c) -> a ^ c); }
  public static Value WDot(Value x, Value y, Value ix, Value iy) {
    final TupleValue a = (TupleValue) x.toTuple(), c = (TupleValue) y.toTuple();
    final TupleValue p = (TupleValue) ix.toTuple(), q = (TupleValue) iy.toTuple();
    long r = 0;
    for (int i = 0; i < p.elems.length; i++) r += w(a.elems[n(p.elems[i]) - 1]) * w(c.elems[n(q.elems[i]) - 1]);
    return v(r);
  }
}
