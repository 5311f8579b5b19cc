import tlc2.value.impl.*;
import tlc2.value.IValue;

/** Evaluation of the operators of RealOps.tla. */
public class RealOps {
  private static double d(IValue v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems;
      return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
    }
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": case "-nan": return Double.NaN;
        case "inf": return Double.POSITIVE_INFINITY;
        case "-inf": return Double.NEGATIVE_INFINITY;
        default: return Double.parseDouble(s);
      }
    }
    Value t = (Value) ((Value) v).toTuple();
    if (t instanceof TupleValue && ((TupleValue) t).elems.length == 2) return d(t);
    throw new IllegalArgumentException("not a number: " + v);
  }
  private static Value r(double x) {
    long b = Double.doubleToLongBits(x == 0 ? 0.0 : x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
  public static Value RNeg(Value x) { return r(-d(x)); }
  public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
  public static Value RMin(Value x, Value y) { return r(Math.min(d(x), d(y))); }
  public static Value RMax(Value x, Value y) { return r(Math.max(d(x), d(y))); }
  public static Value RSqrt(Value x) { return r(Math.sqrt(d(x))); }
  public static Value RExp(Value x) { return r(Math.exp(d(x))); }
  public static Value RLog(Value x) { return r(Math.log(d(x))); }
  public static Value RSin(Value x) { return r(Math.sin(d(x))); }
  public static Value RCos(Value x) { return r(Math.cos(d(x))); }
  public static Value RTan(Value x) { return r(Math.tan(d(x))); }
  public static Value RCosh(Value x) { return r(Math.cosh(d(x))); }
  public static Value RAtan2(Value x, Value y) { return r(Math.atan2(d(x), d(y))); }
  public static Value RPow(Value x, Value y) { return r(Math.pow(d(x), d(y))); }
  public static Value RFloor(Value x) { return r(Math.floor(d(x))); }
  public static Value RSingle(Value x) { return r((double) (float) d(x)); }
  public static Value RInt(Value x) {
    double v = Math.floor(d(x));
    if (!(v >= -2147483648.0 && v <= 2147483647.0)) throw new IllegalArgumentException("RInt out of range: " + v);
    return IntValue.gen((int) v);
  }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { double p = d(x), q = d(y); return b(p == q || (p != p && q != q)); }
  public static Value RFinite(Value x) { double p = d(x); return b(p - p == 0); }
  public static Value RNan(Value x) { double p = d(x); return b(p != p); }
  public static Value RNear(Value x, Value y, Value t) {
    double p = d(x), q = d(y);
    if (p == q) return b(true);
    if (!(p - p == 0) || !(q - q == 0)) return b(false);
    return b(Math.abs(p - q) <= d(t) * Math.max(1, Math.max(Math.abs(p), Math.abs(q))));
  }
  public static Value RWithin(Value x, Value y, Value t) { double p = d(x), q = d(y); return b(p == q || Math.abs(p - q) <= d(t)); }
  private static Value[] seq(Value s) {
    Value t = s instanceof TupleValue ? s : (Value) s.toTuple();
    if (t == null) throw new IllegalArgumentException("not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value RSum(Value s) { double a = 0; for (Value v : seq(s)) a += d(v); return r(a); }
  public static Value RDot(Value s, Value u) {
    Value[] p = seq(s), q = seq(u);
    if (p.length != q.length) throw new IllegalArgumentException("RDot of different lengths");
    double a = 0; for (int i = 0; i < p.length; ++i) a += d(p[i]) * d(q[i]); return r(a);
  }
  public static Value RShow(Value x) { return new StringValue(Double.toString(d(x))); }
}
