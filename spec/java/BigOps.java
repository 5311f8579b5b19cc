import java.math.BigInteger;
import tlc2.value.impl.*;

/** Evaluation of the operators of BigOps.tla. */
public class BigOps {
  private static BigInteger d(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
    throw new IllegalArgumentException("not an integer: " + v);
  }
  private static Value r(BigInteger x) { return new StringValue(x.toString()); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static BigInteger[] dm(BigInteger x, BigInteger y) {
    BigInteger[] q = x.divideAndRemainder(y);
    if (q[1].signum() != 0 && q[1].signum() != y.signum()) { q[0] = q[0].subtract(BigInteger.ONE); q[1] = q[1].add(y); }
    return q;
  }
  public static Value BAdd(Value x, Value y) { return r(d(x).add(d(y))); }
  public static Value BSub(Value x, Value y) { return r(d(x).subtract(d(y))); }
  public static Value BMul(Value x, Value y) { return r(d(x).multiply(d(y))); }
  public static Value BDiv(Value x, Value y) { return r(dm(d(x), d(y))[0]); }
  public static Value BMod(Value x, Value y) { return r(dm(d(x), d(y))[1]); }
  public static Value BLt(Value x, Value y) { return b(d(x).compareTo(d(y)) < 0); }
  public static Value BLe(Value x, Value y) { return b(d(x).compareTo(d(y)) <= 0); }
  public static Value BEq(Value x, Value y) { return b(d(x).equals(d(y))); }
}
