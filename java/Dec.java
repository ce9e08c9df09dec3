import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

/**
 * Evaluator of the TLA+ module Dec: decimal floating point numbers of 34
 * digits, represented as TLA+ strings.  Only scalar arithmetic (and plain
 * sums) live here; every formula of the specification is written in TLA+.
 * Not-a-number and infinities are the strings "nan", "inf", "-inf"; an
 * operation with one of them as operand (or without a result) gives "nan",
 * and every comparison with "nan" is FALSE.
 */
public class Dec {
  static final MathContext MC = new MathContext(34, RoundingMode.HALF_EVEN);
  static final MathContext MCX = new MathContext(44, RoundingMode.HALF_EVEN);
  static final StringValue NAN = new StringValue("nan");

  static BigDecimal num(Value v) {
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
    String s = ((StringValue) v).val.toString();
    if (s.isEmpty()) return null;
    char c = s.charAt(s.length() - 1);
    if (c == 'n' || c == 'f' || c == 'N') return null;
    try {
      return new BigDecimal(s);
    } catch (NumberFormatException e) {
      return null;
    }
  }

  static StringValue str(BigDecimal d) {
    if (d == null) return NAN;
    d = d.round(MC);
    if (d.signum() == 0) return new StringValue("0");
    d = d.stripTrailingZeros();
    if (d.scale() <= 0 && d.scale() > -18) return new StringValue(d.toPlainString());
    return new StringValue(d.toString());
  }

  static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value DNorm(Value a) { return str(num(a)); }
  public static Value DFromInt(Value a) { return str(num(a)); }
  public static Value DFinite(Value a) { return bool(num(a) != null); }

  public static Value DAdd(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return x == null || y == null ? NAN : str(x.add(y, MC));
  }
  public static Value DSub(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return x == null || y == null ? NAN : str(x.subtract(y, MC));
  }
  public static Value DMul(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return x == null || y == null ? NAN : str(x.multiply(y, MC));
  }
  public static Value DDiv(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return x == null || y == null || y.signum() == 0 ? NAN : str(x.divide(y, MC));
  }
  public static Value DNeg(Value a) { BigDecimal x = num(a); return x == null ? NAN : str(x.negate()); }
  public static Value DAbs(Value a) { BigDecimal x = num(a); return x == null ? NAN : str(x.abs()); }
  public static Value DSqrt(Value a) {
    BigDecimal x = num(a);
    return x == null || x.signum() < 0 ? NAN : str(x.signum() == 0 ? x : x.sqrt(MC));
  }
  public static Value DFloor(Value a) {
    BigDecimal x = num(a);
    return x == null ? NAN : str(x.setScale(0, RoundingMode.FLOOR));
  }
  public static Value DRound(Value a) {
    BigDecimal x = num(a);
    return x == null ? NAN : str(x.setScale(0, RoundingMode.HALF_EVEN));
  }
  /** The value of a number as TLA+ integer (0 if it is none or too large). */
  public static Value DToInt(Value a) {
    BigDecimal x = num(a);
    if (x == null || x.abs().compareTo(BigDecimal.valueOf(1000000000)) > 0) return IntValue.gen(0);
    return IntValue.gen(x.intValue());
  }

  static BigDecimal exp(BigDecimal x) {
    if (x.signum() == 0) return BigDecimal.ONE;
    if (x.compareTo(BigDecimal.valueOf(100000)) > 0) return null;
    if (x.compareTo(BigDecimal.valueOf(-100000)) < 0) return BigDecimal.ZERO;
    int k = 0;
    BigDecimal r = x.abs();
    while (r.compareTo(new BigDecimal("0.01")) > 0) {
      r = r.divide(BigDecimal.valueOf(2), MCX);
      k++;
    }
    MathContext m = new MathContext(56, RoundingMode.HALF_EVEN);
    BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      term = term.multiply(r, m).divide(BigDecimal.valueOf(i), m);
      sum = sum.add(term, m);
      if (term.signum() == 0 || term.precision() - term.scale() < -58) break;
    }
    for (int i = 0; i < k; i++) sum = sum.multiply(sum, m);
    return x.signum() < 0 ? BigDecimal.ONE.divide(sum, MCX) : sum.round(MCX);
  }

  static BigDecimal LN10;

  static BigDecimal lnNear(BigDecimal m) { // m in [0.1, 100)
    BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
    for (int i = 0; i < 2; i++) {
      BigDecimal e = exp(y);
      y = y.add(m.subtract(e, MCX).multiply(BigDecimal.valueOf(2), MCX).divide(m.add(e, MCX), MCX), MCX);
    }
    return y;
  }

  static synchronized BigDecimal ln10() {
    if (LN10 == null) LN10 = lnNear(BigDecimal.TEN);
    return LN10;
  }

  static BigDecimal ln(BigDecimal x) {
    if (x.signum() <= 0) return null;
    int e = x.precision() - x.scale() - 1;
    BigDecimal m = x.scaleByPowerOfTen(-e);
    BigDecimal r = lnNear(m);
    if (e != 0) r = r.add(ln10().multiply(BigDecimal.valueOf(e), MCX), MCX);
    return r;
  }

  public static Value DExp(Value a) { BigDecimal x = num(a); return x == null ? NAN : str(exp(x)); }
  public static Value DLn(Value a) { BigDecimal x = num(a); return x == null ? NAN : str(ln(x)); }

  public static Value DLt(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return bool(x != null && y != null && x.compareTo(y) < 0);
  }
  public static Value DLe(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return bool(x != null && y != null && x.compareTo(y) <= 0);
  }
  public static Value DEq(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return bool(x != null && y != null && x.compareTo(y) == 0);
  }
  public static Value DMax(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return x == null || y == null ? NAN : str(x.max(y));
  }
  public static Value DMin(Value a, Value b) {
    BigDecimal x = num(a), y = num(b);
    return x == null || y == null ? NAN : str(x.min(y));
  }
  /** |a - b| <= rel * max(|a|, |b|) + abs */
  public static Value DClose(Value a, Value b, Value rel, Value abs) {
    BigDecimal x = num(a), y = num(b), r = num(rel), t = num(abs);
    if (x == null || y == null || r == null || t == null) return bool(false);
    BigDecimal d = x.subtract(y).abs();
    return bool(d.compareTo(x.abs().max(y.abs()).multiply(r).add(t)) <= 0);
  }

  static Value[] elems(Value s) {
    Value t = s.toTuple();
    return ((TupleValue) t).elems;
  }

  /** Sum of a sequence (exact until the final rounding). */
  public static Value DSum(Value s) {
    BigDecimal r = BigDecimal.ZERO;
    for (Value v : elems(s)) {
      BigDecimal x = num(v);
      if (x == null) return NAN;
      r = r.add(x, MCX);
    }
    return str(r);
  }
  /** Scalar product of two sequences. */
  public static Value DDot(Value s, Value t) {
    Value[] a = elems(s), b = elems(t);
    BigDecimal r = BigDecimal.ZERO;
    for (int i = 0; i < a.length; i++) {
      BigDecimal x = num(a[i]), y = num(b[i]);
      if (x == null || y == null) return NAN;
      r = r.add(x.multiply(y, MCX), MCX);
    }
    return str(r);
  }
}
