import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC operator overrides for spec/Rat.tla: exact rational arithmetic on strings "n" or "n/d"
 *  (lowest terms, d > 1).  spec/RatSelfTest.tla checks every override against TLA+ integer
 *  arithmetic on small operands. */
public class Rat {
  private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  static BigInteger[] p(final Value v) {
    final String s = ((StringValue) v).val.toString();
    final int i = s.indexOf('/');
    if (i < 0) return new BigInteger[] { new BigInteger(s), ONE };
    return new BigInteger[] { new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)) };
  }
  static Value m(BigInteger n, BigInteger d) {
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    final BigInteger g = n.gcd(d);
    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    return new StringValue(d.equals(ONE) ? n.toString() : n + "/" + d);
  }
  static BoolValue b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static int cmp(final BigInteger[] x, final BigInteger[] y) {
    return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
  }
  static Value[] els(final Value v) {
    final Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }

  public static Value RInt(final Value i) { return new StringValue(Integer.toString(((IntValue) i).val)); }
  public static Value RMk(final Value n, final Value d) {
    return m(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val));
  }
  public static BoolValue RIsNum(final Value v) {
    if (!(v instanceof StringValue)) return BoolValue.ValFalse;
    final String s = ((StringValue) v).val.toString();
    return b(s.matches("-?[0-9]+(/[0-9]+)?"));
  }
  public static Value RAdd(final Value a, final Value c) {
    final BigInteger[] x = p(a), y = p(c);
    return m(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RSub(final Value a, final Value c) {
    final BigInteger[] x = p(a), y = p(c);
    return m(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RMul(final Value a, final Value c) {
    final BigInteger[] x = p(a), y = p(c);
    return m(x[0].multiply(y[0]), x[1].multiply(y[1]));
  }
  public static Value RDiv(final Value a, final Value c) {
    final BigInteger[] x = p(a), y = p(c);
    if (y[0].signum() == 0) throw new RuntimeException("RDiv by zero: " + a + " / " + c);
    return m(x[0].multiply(y[1]), x[1].multiply(y[0]));
  }
  public static Value RNeg(final Value a) { final BigInteger[] x = p(a); return m(x[0].negate(), x[1]); }
  public static Value RAbs(final Value a) { final BigInteger[] x = p(a); return m(x[0].abs(), x[1]); }
  public static IntValue RSign(final Value a) { return IntValue.gen(p(a)[0].signum()); }
  public static BoolValue RLt(final Value a, final Value c) { return b(cmp(p(a), p(c)) < 0); }
  public static BoolValue RLe(final Value a, final Value c) { return b(cmp(p(a), p(c)) <= 0); }
  public static Value RMax(final Value a, final Value c) { return cmp(p(a), p(c)) >= 0 ? a : c; }
  public static Value RMin(final Value a, final Value c) { return cmp(p(a), p(c)) <= 0 ? a : c; }
  /** floor as a TLA+ integer */
  public static IntValue RFloor(final Value a) {
    final BigInteger[] x = p(a);
    BigInteger[] qr = x[0].divideAndRemainder(x[1]);
    BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    return IntValue.gen(q.intValueExact());
  }
  /** exact root if a is the square of a rational, else the root rounded down to a multiple of 10^-40 */
  public static Value RSqrt(final Value a) {
    final BigInteger[] x = p(a);
    if (x[0].signum() < 0) throw new RuntimeException("RSqrt of negative: " + a);
    final BigInteger rn = x[0].sqrt(), rd = x[1].sqrt();
    if (rn.multiply(rn).equals(x[0]) && rd.multiply(rd).equals(x[1])) return m(rn, rd);
    final BigInteger s = BigInteger.TEN.pow(40);
    return m(x[0].multiply(s).multiply(s).divide(x[1]).sqrt(), s);
  }
  public static Value RSum(final Value v) {
    BigInteger n = ZERO, d = ONE;
    for (final Value e : els(v)) {
      final BigInteger[] y = p(e);
      n = n.multiply(y[1]).add(y[0].multiply(d)); d = d.multiply(y[1]);
    }
    return m(n, d);
  }
  public static Value RDot(final Value u, final Value v) {
    final Value[] a = els(u), c = els(v);
    if (a.length != c.length) throw new RuntimeException("RDot: lengths differ");
    BigInteger n = ZERO, d = ONE;
    for (int i = 0; i < a.length; i++) {
      final BigInteger[] x = p(a[i]), y = p(c[i]);
      final BigInteger pn = x[0].multiply(y[0]);
      if (pn.signum() == 0) continue;
      final BigInteger pd = x[1].multiply(y[1]);
      n = n.multiply(pd).add(pn.multiply(d)); d = d.multiply(pd);
    }
    return m(n, d);
  }
}
