// TLC operator overrides for module R64: IEEE 754 double precision numbers,
// represented in TLA+ as the pair <<hi, lo>> of the two signed 32 bit halves.
import tlc2.value.impl.*;

public class R64 {
  private static double d(final Value v) {
    final TupleValue t = (TupleValue) v.toTuple();
    final long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  private static Value r(final double x) {
    final long b = Double.isNaN(x) ? 0x7ff8000000000000L : Double.doubleToRawLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RAdd(final Value x, final Value y) { return r(d(x) + d(y)); }
  public static Value RSub(final Value x, final Value y) { return r(d(x) - d(y)); }
  public static Value RMul(final Value x, final Value y) { return r(d(x) * d(y)); }
  public static Value RDiv(final Value x, final Value y) { return r(d(x) / d(y)); }
  public static Value RPow(final Value x, final Value y) { return r(Math.pow(d(x), d(y))); }
  public static Value RNeg(final Value x) { return r(-d(x)); }
  public static Value RAbs(final Value x) { return r(Math.abs(d(x))); }
  public static Value RSqrt(final Value x) { return r(Math.sqrt(d(x))); }
  public static Value RSin(final Value x) { return r(Math.sin(d(x))); }
  public static Value RCos(final Value x) { return r(Math.cos(d(x))); }
  public static Value RTan(final Value x) { return r(Math.tan(d(x))); }
  public static Value RAtan(final Value x) { return r(Math.atan(d(x))); }
  public static Value RExp(final Value x) { return r(Math.exp(d(x))); }
  public static Value RLn(final Value x) { return r(Math.log(d(x))); }
  public static Value RSinh(final Value x) { return r(Math.sinh(d(x))); }
  public static Value RCosh(final Value x) { return r(Math.cosh(d(x))); }
  public static Value RLt(final Value x, final Value y) { return b(d(x) < d(y)); }
  public static Value RLe(final Value x, final Value y) { return b(d(x) <= d(y)); }
  public static Value REq(final Value x, final Value y) { return b(d(x) == d(y)); }
  public static Value RIsNaN(final Value x) { return b(Double.isNaN(d(x))); }
  public static Value RIsFinite(final Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
  public static Value RMax(final Value x, final Value y) { return r(Math.max(d(x), d(y))); }
  public static Value RMin(final Value x, final Value y) { return r(Math.min(d(x), d(y))); }
  // conversions
  public static Value ROfInt(final Value x) { return r(((IntValue) x).val); }
  public static Value ROfStr(final Value x) { return r(Double.parseDouble(((StringValue) x).val.toString())); }
  public static Value RToStr(final Value x) { return new StringValue(Double.toString(d(x))); }
  // nearest single precision number, as a double
  public static Value RToFloat(final Value x) { return r((double) (float) d(x)); }
  // rounding towards zero
  public static Value RTrunc(final Value x) { final double v = d(x); return r(v < 0 ? Math.ceil(v) + 0.0 : Math.floor(v)); }
  // pseudo random number in [0, 1), a function of its three arguments (splitmix64)
  private static long mix(long z) {
    z += 0x9e3779b97f4a7c15L;
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }
  private static long h(final Value s, final Value i, final Value j) {
    return mix(mix(mix(((IntValue) s).val) + ((IntValue) i).val) + ((IntValue) j).val);
  }
  public static Value RRnd(final Value s, final Value i, final Value j) { return r((h(s, i, j) >>> 11) * 0x1.0p-53); }
  public static Value RndInt(final Value s, final Value i, final Value j, final Value n) {
    return IntValue.gen((int) Long.remainderUnsigned(h(s, i, j) >>> 8, ((IntValue) n).val));
  }
}
