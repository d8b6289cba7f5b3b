package acvspec;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Arbitrary-precision evaluation of the operators of Rat.tla.
 *  A rational is an integer, a pair <<n, d>>, or a string "n/d" (also "n", "nan", "inf", "-inf").
 *  Results are canonical strings ("n" when d = 1), so equality of canonical results is equality of strings. */
public class RatOverride implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { RatOverride.class }; }

  static final class R {
    final BigInteger n, d;
    R(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      }
      this.n = n; this.d = d;
    }
    R add(R o) { return d.equals(o.d) ? new R(n.add(o.n), d) : new R(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    R neg() { return new R(n.negate(), d); }
    R mul(R o) { return new R(n.multiply(o.n), d.multiply(o.d)); }
    R div(R o) { return new R(n.multiply(o.d), d.multiply(o.n)); }
    int cmp(R o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
  }
  static final R ZERO = new R(BigInteger.ZERO, BigInteger.ONE);

  /** null stands for a value that is not a finite number */
  static R parse(Value v) {
    if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.equals("nan") || s.equals("inf") || s.equals("-inf")) return null;
      int i = s.indexOf('/');
      if (i < 0) return new R(new BigInteger(s), BigInteger.ONE);
      return new R(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }
    TupleValue t = (TupleValue) v.toTuple();
    R a = parse(t.elems[0]), b = parse(t.elems[1]);
    return a == null || b == null || b.n.signum() == 0 ? null : a.div(b);
  }
  static Value str(R r) {
    if (r == null) return new StringValue("nan");
    return new StringValue(r.d.equals(BigInteger.ONE) ? r.n.toString() : r.n.toString() + "/" + r.d.toString());
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "Q", module = "Rat", warn = false)
  public static Value q(Value n, Value d) {
    R a = parse(n), b = parse(d);
    return str(a == null || b == null || b.n.signum() == 0 ? null : a.div(b));
  }
  @TLAPlusOperator(identifier = "QAdd", module = "Rat", warn = false)
  public static Value add(Value a, Value b) { R x = parse(a), y = parse(b); return str(x == null || y == null ? null : x.add(y)); }
  @TLAPlusOperator(identifier = "QSub", module = "Rat", warn = false)
  public static Value sub(Value a, Value b) { R x = parse(a), y = parse(b); return str(x == null || y == null ? null : x.add(y.neg())); }
  @TLAPlusOperator(identifier = "QMul", module = "Rat", warn = false)
  public static Value mul(Value a, Value b) { R x = parse(a), y = parse(b); return str(x == null || y == null ? null : x.mul(y)); }
  @TLAPlusOperator(identifier = "QDiv", module = "Rat", warn = false)
  public static Value div(Value a, Value b) { R x = parse(a), y = parse(b); return str(x == null || y == null || y.n.signum() == 0 ? null : x.div(y)); }
  @TLAPlusOperator(identifier = "QLe", module = "Rat", warn = false)
  public static Value le(Value a, Value b) { R x = parse(a), y = parse(b); return bool(x != null && y != null && x.cmp(y) <= 0); }
  @TLAPlusOperator(identifier = "QLt", module = "Rat", warn = false)
  public static Value lt(Value a, Value b) { R x = parse(a), y = parse(b); return bool(x != null && y != null && x.cmp(y) < 0); }
  @TLAPlusOperator(identifier = "QEq", module = "Rat", warn = false)
  public static Value eq(Value a, Value b) { R x = parse(a), y = parse(b); return bool(x != null && y != null && x.cmp(y) == 0); }
  @TLAPlusOperator(identifier = "QSum", module = "Rat", warn = false)
  public static Value sum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    R r = ZERO;
    for (Value v : t.elems) { R x = parse(v); if (x == null) return str(null); if (x.n.signum() != 0) r = r.add(x); }
    return str(r);
  }
  @TLAPlusOperator(identifier = "QDot", module = "Rat", warn = false)
  public static Value dot(Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
    R r = ZERO;
    for (int i = 0; i < t.elems.length; i++) {
      R x = parse(t.elems[i]), y = parse(w.elems[i]);
      if (x == null || y == null) return str(null);
      if (x.n.signum() != 0 && y.n.signum() != 0) r = r.add(x.mul(y));
    }
    return str(r);
  }
  /** |a - e| <= tol * (1 + |e|) */
  @TLAPlusOperator(identifier = "QClose", module = "Rat", warn = false)
  public static Value close(Value a, Value e, Value tol) {
    R x = parse(a), y = parse(e), z = parse(tol);
    if (x == null || y == null || z == null) return bool(false);
    R diff = x.add(y.neg());
    R lim = z.mul(new R(y.n.abs().add(y.d), y.d));
    return bool(new R(diff.n.abs(), diff.d).cmp(lim) <= 0);
  }
  /** the double nearest to the quotient, as an exact rational: used where the code's own rounding matters */
  @TLAPlusOperator(identifier = "QF32", module = "Rat", warn = false)
  public static Value f32(Value a) {
    R x = parse(a);
    if (x == null) return str(null);
    float f = new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), new java.math.MathContext(40)).floatValue();
    java.math.BigDecimal b = new java.math.BigDecimal((double) f);
    BigInteger n = b.unscaledValue(), d = BigInteger.ONE;
    if (b.scale() > 0) d = BigInteger.TEN.pow(b.scale()); else n = n.multiply(BigInteger.TEN.pow(-b.scale()));
    return str(new R(n, d));
  }
}
