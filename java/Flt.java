import tlc2.value.impl.*;
import java.math.BigDecimal;
import java.math.RoundingMode;

/** IEEE 754 binary64 arithmetic for TLC: the bodies of the operators declared in
 *  spec/Flt.tla.  A float is the tuple <<hi, lo>> of the two (signed) halves of its bits. */
public class Flt {
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value f(double x) {
    long b = Double.doubleToRawLongBits(x);
    if (x != x) b = 0x7ff8000000000000L;   // one NaN
    return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FAdd(Value x, Value y) { return f(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return f(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return f(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return f(d(x) / d(y)); }
  public static Value FRound(Value x) { return f(Math.rint(d(x))); }
  public static Value FNeg(Value x) { return f(-d(x)); }
  public static Value FAbs(Value x) { return f(Math.abs(d(x))); }
  public static Value FSqrt(Value x) { return f(Math.sqrt(d(x))); }
  public static Value FSin(Value x) { return f(Math.sin(d(x))); }
  public static Value FCos(Value x) { return f(Math.cos(d(x))); }
  public static Value FTan(Value x) { return f(Math.tan(d(x))); }
  public static Value FAsin(Value x) { return f(Math.asin(d(x))); }
  public static Value FAcos(Value x) { return f(Math.acos(d(x))); }
  public static Value FAtan(Value x) { return f(Math.atan(d(x))); }
  public static Value FAtan2(Value y, Value x) { return f(Math.atan2(d(y), d(x))); }
  public static Value FExp(Value x) { return f(Math.exp(d(x))); }
  public static Value FPow(Value x, Value y) { return f(Math.pow(d(x), d(y))); }
  public static Value FMax(Value x, Value y) { return f(Math.max(d(x), d(y))); }
  public static Value FMin(Value x, Value y) { return f(Math.min(d(x), d(y))); }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value FIsFinite(Value x) { return b(Double.isFinite(d(x))); }
  public static Value FInt(Value n) { return f(((IntValue) n).val); }
  public static Value F(Value s) { return f(Double.parseDouble(((StringValue) s).getVal().toString())); }
  public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
  /** |x - y| <= rtol * max(|x|, |y|) + atol, or equal, or both NaN. */
  public static Value FNear(Value x, Value y, Value rtol, Value atol) {
    double p = d(x), q = d(y);
    if (p == q || (Double.isNaN(p) && Double.isNaN(q))) return b(true);
    return b(Math.abs(p - q) <= d(rtol) * Math.max(Math.abs(p), Math.abs(q)) + d(atol));
  }
  /** Rounded to the nearest whole number, ties to even, as text. */
  public static Value FRoundStr(Value x) {
    double p = d(x);
    if (Double.isNaN(p)) return new StringValue("NaN");
    if (Double.isInfinite(p)) return new StringValue(p > 0 ? "inf" : "-inf");
    String s = new BigDecimal(p).setScale(0, RoundingMode.HALF_EVEN).abs().toPlainString();
    boolean neg = (Double.doubleToRawLongBits(p) < 0);
    return new StringValue((neg ? "-" : "") + s);
  }
}
