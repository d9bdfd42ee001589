import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java meaning of the primitive operators of module Dec: reals as decimal numerals. */
public final class Dec {
  private static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  private static final MathContext W = new MathContext(56, RoundingMode.HALF_EVEN);
  private static final BigDecimal TWO = BigDecimal.valueOf(2);
  private static final BigDecimal PI =
      new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899");
  private static final BigDecimal LN2 =
      new BigDecimal("0.69314718055994530941723212145817656807550013436025525412068000949339362196969472");
  private static final BigDecimal LN10 =
      new BigDecimal("2.30258509299404568401799145468436420760110148862877297603332790096757260967735248");

  /** null big = special value, given by s. */
  private static final class N {
    final BigDecimal d;
    final double s;
    N(BigDecimal d) { this.d = d; this.s = 0; }
    N(double s) { this.d = null; this.s = s; }
    boolean fin() { return d != null; }
    boolean nan() { return d == null && Double.isNaN(s); }
    double approx() { return d != null ? d.signum() : s; }
  }

  private static final ConcurrentHashMap<String, N> CACHE = new ConcurrentHashMap<>();

  private static String str(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).val.toString();
    if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
    throw new RuntimeException("Dec: not a numeral: " + v);
  }

  private static N num(Value v) {
    if (v instanceof IntValue) return new N(BigDecimal.valueOf(((IntValue) v).val));
    String t = str(v);
    N n = CACHE.get(t);
    if (n != null) return n;
    if (t.equals("nan")) n = new N(Double.NaN);
    else if (t.equals("inf")) n = new N(Double.POSITIVE_INFINITY);
    else if (t.equals("-inf")) n = new N(Double.NEGATIVE_INFINITY);
    else n = new N(new BigDecimal(t));
    if (CACHE.size() > 2000000) CACHE.clear();
    CACHE.put(t, n);
    return n;
  }

  private static Value out(BigDecimal d) {
    d = d.round(MC);
    if (d.signum() == 0) return new StringValue("0");
    d = d.stripTrailingZeros();
    return new StringValue(d.toString());
  }

  private static Value out(double s) {
    if (Double.isNaN(s)) return new StringValue("nan");
    if (s == Double.POSITIVE_INFINITY) return new StringValue("inf");
    if (s == Double.NEGATIVE_INFINITY) return new StringValue("-inf");
    return out(new BigDecimal(s));
  }

  public static Value Add(Value a, Value b) {
    N x = num(a), y = num(b);
    if (x.fin() && y.fin()) return out(x.d.add(y.d, MC));
    return out(x.approx() + y.approx());
  }

  public static Value Sub(Value a, Value b) {
    N x = num(a), y = num(b);
    if (x.fin() && y.fin()) return out(x.d.subtract(y.d, MC));
    return out(x.approx() - y.approx());
  }

  public static Value Mul(Value a, Value b) {
    N x = num(a), y = num(b);
    if (x.fin() && y.fin()) return out(x.d.multiply(y.d, MC));
    return out(x.approx() * y.approx());
  }

  public static Value Div(Value a, Value b) {
    N x = num(a), y = num(b);
    if (x.fin() && y.fin()) {
      if (y.d.signum() == 0) return out(x.d.signum() == 0 ? Double.NaN : x.d.signum() / 0.0);
      return out(x.d.divide(y.d, MC));
    }
    return out(x.approx() / y.approx());
  }

  public static Value NegD(Value a) {
    N x = num(a);
    return x.fin() ? out(x.d.negate()) : out(-x.s);
  }

  public static Value AbsD(Value a) {
    N x = num(a);
    return x.fin() ? out(x.d.abs()) : out(Math.abs(x.s));
  }

  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  private static int cmp(N x, N y) {
    if (x.fin() && y.fin()) return x.d.compareTo(y.d);
    return Double.compare(x.fin() ? 0.0 : x.s, y.fin() ? 0.0 : y.s);
  }

  public static Value Lt(Value a, Value b) {
    N x = num(a), y = num(b);
    return bool(!x.nan() && !y.nan() && cmp(x, y) < 0);
  }

  public static Value Le(Value a, Value b) {
    N x = num(a), y = num(b);
    return bool(!x.nan() && !y.nan() && cmp(x, y) <= 0);
  }

  public static Value Eq(Value a, Value b) {
    N x = num(a), y = num(b);
    return bool(!x.nan() && !y.nan() && cmp(x, y) == 0);
  }

  public static Value IsNaN(Value a) { return bool(num(a).nan()); }

  public static Value IsFin(Value a) { return bool(num(a).fin()); }

  // ---- elementary functions, all to more than 40 digits -------------------
  private static BigDecimal exp(BigDecimal x) {
    if (x.compareTo(new BigDecimal("-200000")) < 0) return BigDecimal.ZERO;
    if (x.compareTo(new BigDecimal("200000")) > 0) throw new ArithmeticException("exp overflow");
    // x = k ln10 + r
    MathContext M = new MathContext(70);
    BigDecimal k = x.divide(LN10, M).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.subtract(k.multiply(LN10), M);
    // halve r 8 times
    BigDecimal q = r.divide(BigDecimal.valueOf(256), M);
    BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
    BigDecimal eps = new BigDecimal("1E-66");
    for (int i = 1; i < 400; i++) {
      term = term.multiply(q, M).divide(BigDecimal.valueOf(i), M);
      sum = sum.add(term, M);
      if (term.abs().compareTo(eps) < 0) break;
    }
    for (int i = 0; i < 8; i++) sum = sum.multiply(sum, M);
    return sum.scaleByPowerOfTen(k.intValueExact()).round(W);
  }

  private static BigDecimal ln(BigDecimal x) {
    if (x.signum() <= 0) throw new ArithmeticException("ln of non-positive");
    MathContext M = new MathContext(70);
    int k = x.precision() - x.scale() - 1;
    BigDecimal m = x.scaleByPowerOfTen(-k); // in [1, 10)
    // m = 2^j * f with f in [0.7, 1.4)
    int j = 0;
    BigDecimal hi = new BigDecimal("1.4142135623");
    while (m.compareTo(hi) > 0) { m = m.divide(TWO, M); j++; }
    BigDecimal z = m.subtract(BigDecimal.ONE).divide(m.add(BigDecimal.ONE), M);
    BigDecimal z2 = z.multiply(z, M), t = z, s = z;
    BigDecimal eps = new BigDecimal("1E-66");
    for (int i = 3; i < 2000; i += 2) {
      t = t.multiply(z2, M);
      BigDecimal u = t.divide(BigDecimal.valueOf(i), M);
      s = s.add(u, M);
      if (u.abs().compareTo(eps) < 0) break;
    }
    return s.multiply(TWO).add(LN2.multiply(BigDecimal.valueOf(j))).add(LN10.multiply(BigDecimal.valueOf(k)), W);
  }

  public static Value ExpD(Value a) {
    N x = num(a);
    if (!x.fin()) return out(Math.exp(x.s));
    if (x.d.compareTo(new BigDecimal("200000")) > 0) return out(Double.POSITIVE_INFINITY);
    return out(exp(x.d));
  }

  public static Value LnD(Value a) {
    N x = num(a);
    if (!x.fin()) return out(Math.log(x.s));
    if (x.d.signum() < 0) return out(Double.NaN);
    if (x.d.signum() == 0) return out(Double.NEGATIVE_INFINITY);
    return out(ln(x.d));
  }

  public static Value PowD(Value a, Value b) {
    N x = num(a), y = num(b);
    if (!x.fin() || !y.fin())
      return out(Math.pow(x.fin() ? x.d.doubleValue() : x.s, y.fin() ? y.d.doubleValue() : y.s));
    try {
      int n = y.d.intValueExact();
      if (Math.abs(n) < 1000) {
        if (n < 0 && x.d.signum() == 0) return out(Double.POSITIVE_INFINITY);
        BigDecimal p = x.d.pow(Math.abs(n), W);
        return out(n < 0 ? BigDecimal.ONE.divide(p, W) : p);
      }
    } catch (ArithmeticException e) {
      // a genuine real exponent
    }
    if (x.d.signum() < 0) return out(Double.NaN);
    if (x.d.signum() == 0) return out(y.d.signum() > 0 ? BigDecimal.ZERO : BigDecimal.ONE);
    return out(exp(ln(x.d).multiply(y.d)));
  }

  public static Value CosD(Value a) {
    N x = num(a);
    if (!x.fin()) return out(Double.NaN);
    MathContext M = new MathContext(75);
    BigDecimal tp = PI.multiply(TWO);
    BigDecimal k = x.d.divide(tp, M).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.d.subtract(k.multiply(tp), M);
    BigDecimal r2 = r.multiply(r, M), t = BigDecimal.ONE, s = BigDecimal.ONE;
    BigDecimal eps = new BigDecimal("1E-70");
    for (int i = 1; i < 200; i++) {
      t = t.multiply(r2, M).divide(BigDecimal.valueOf((2L * i - 1) * (2L * i)), M).negate();
      s = s.add(t, M);
      if (t.abs().compareTo(eps) < 0) break;
    }
    return out(s);
  }

  public static Value SqrtD(Value a) {
    N x = num(a);
    if (!x.fin()) return out(Math.sqrt(x.s));
    if (x.d.signum() < 0) return out(Double.NaN);
    return out(x.d.sqrt(MC));
  }

  public static Value FloorD(Value a) {
    N x = num(a);
    return x.fin() ? out(x.d.setScale(0, RoundingMode.FLOOR)) : out(x.s);
  }

  public static Value ToInt(Value a) { return IntValue.gen(num(a).d.intValueExact()); }

  public static Value FromInt(Value a) { return new StringValue(Integer.toString(((IntValue) a).val)); }

  public static Value DInt(Value a) {
    N x = num(a);
    return bool(x.fin() && (x.d.signum() == 0 || x.d.stripTrailingZeros().scale() <= 0));
  }

  public static Value SumD(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    BigDecimal sum = BigDecimal.ZERO;
    double sp = 0;
    boolean special = false;
    for (Value v : t.elems) {
      N n = num(v);
      if (n.fin()) sum = sum.add(n.d, W);
      else { special = true; sp += n.s; }
    }
    return special ? out(sp) : out(sum);
  }

  public static Value PiD(Value a) { return new StringValue(PI.round(new MathContext(45)).toString()); }

  // ---- strings -------------------------------------------------------------
  public static Value Lower(Value s) { return new StringValue(str(s).toLowerCase(java.util.Locale.ROOT)); }

  public static Value ReplaceS(Value s, Value a, Value b) {
    return new StringValue(str(s).replace(str(a), str(b)));
  }

  public static Value CatS(Value a, Value b) { return new StringValue(str(a) + str(b)); }

  public static Value EndsS(Value a, Value b) { return bool(str(a).endsWith(str(b))); }

  public static Value StartsS(Value a, Value b) { return bool(str(a).startsWith(str(b))); }

  public static Value ContainsS(Value a, Value b) { return bool(str(a).contains(str(b))); }
}
