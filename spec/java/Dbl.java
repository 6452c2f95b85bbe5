import tlc2.value.impl.*;
/** Evaluation of the operators of ../Dbl.tla: IEEE doubles as pairs of 32-bit words. */
public class Dbl {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value i(double x) {
    if (!(Math.abs(x) < 2147483647.0)) x = x > 0 ? 2147483647.0 : -2147483647.0;
    return IntValue.gen((int) x);
  }
  public static Value FAdd(Value x, Value y) { return v(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return v(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return v(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return v(d(x) / d(y)); }
  public static Value FPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
  public static Value FAtan2(Value x, Value y) { return v(Math.atan2(d(x), d(y))); }
  public static Value FHypot(Value x, Value y) { return v(Math.hypot(d(x), d(y))); }
  public static Value FNeg(Value x) { return v(-d(x)); }
  public static Value FAbs(Value x) { return v(Math.abs(d(x))); }
  public static Value FSqrt(Value x) { return v(Math.sqrt(d(x))); }
  public static Value FSin(Value x) { return v(Math.sin(d(x))); }
  public static Value FCos(Value x) { return v(Math.cos(d(x))); }
  public static Value FTan(Value x) { return v(Math.tan(d(x))); }
  public static Value FAsin(Value x) { return v(Math.asin(d(x))); }
  public static Value FAcos(Value x) { return v(Math.acos(d(x))); }
  public static Value FAtan(Value x) { return v(Math.atan(d(x))); }
  public static Value FExp(Value x) { return v(Math.exp(d(x))); }
  public static Value FLog(Value x) { return v(Math.log(d(x))); }
  public static Value FSinh(Value x) { return v(Math.sinh(d(x))); }
  public static Value FCosh(Value x) { return v(Math.cosh(d(x))); }
  public static Value FTanh(Value x) { return v(Math.tanh(d(x))); }
  public static Value FMod(Value x, Value y) { double a = d(x), m = d(y), r = a % m; if (r != 0 && (r < 0) != (m < 0)) r += m; return v(r); }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FFloor(Value x) { return i(Math.floor(d(x))); }
  public static Value FTrunc(Value x) { double a = d(x); return i(a < 0 ? Math.ceil(a) : Math.floor(a)); }
  public static Value FRound(Value x) { return i(Math.rint(d(x))); }
  public static Value FNear(Value x, Value y) {
    double p = d(x), q = d(y);
    if (Double.isNaN(p) || Double.isNaN(q)) return BoolValue.ValTrue;
    return b(p == q || Math.abs(p - q) <= 1e-9 * Math.max(1, Math.max(Math.abs(p), Math.abs(q))));
  }
  public static Value FFin(Value x) { double a = d(x); return b(!Double.isNaN(a) && !Double.isInfinite(a)); }
  public static Value FNearTol(Value x, Value y, Value t) {
    double p = d(x), q = d(y), e = d(t);
    return b(!(Math.abs(p - q) > e));
  }
  public static Value F(Value n) { return v(d(n)); }
}
