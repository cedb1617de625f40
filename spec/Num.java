import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** Evaluation of module Num (see Num.tla). A real is <<hi, lo, bound, exact>>; NaR is <<>>. */
public class Num {
  static final double U = 1.2e-16;
  static final TupleValue NAR = new TupleValue(new Value[0]);

  static final class N {
    double v, e; boolean x;
    N(double v, double e, boolean x) { this.v = v; this.e = e; this.x = x; }
  }
  static N get(Value a) {
    TupleValue t = (TupleValue) (a instanceof TupleValue ? a : a.toTuple());
    Value[] el = t.elems;
    if (el.length == 0) return null;
    if (el.length != 4) throw new RuntimeException("Num: not a number: " + a);
    long h = ((IntValue) el[0]).val, l = ((IntValue) el[1]).val & 0xffffffffL;
    return new N(Double.longBitsToDouble((h << 32) | l), Float.intBitsToFloat(((IntValue) el[2]).val), ((IntValue) el[3]).val != 0);
  }
  static TupleValue put(double v, double e, boolean x) {
    if (Double.isNaN(v) || Double.isInfinite(v) || Double.isNaN(e) || Double.isInfinite(e) || Math.abs(v) > 1e200 || e > 1e30) return NAR;
    if (v == 0) v = 0.0; // no negative zero
    long b = Double.doubleToRawLongBits(v);
    float f = (float) e;
    if (e > 0 && f < e) f = Math.nextUp(f);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b),
        IntValue.gen(Float.floatToRawIntBits(f)), IntValue.gen(x ? 1 : 0) });
  }
  static TupleValue put(N n) { return n == null ? NAR : put(n.v, n.e, n.x); }
  static TupleValue elem(double v) { return put(v, Math.abs(v) * U, true); }

  public static Value NaR() { return NAR; }
  public static Value NIs(Value a) { return ((TupleValue) a.toTuple()).elems.length != 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NInt(Value i) { return elem(((IntValue) i).val); }
  static double parse(String s) {
    int k = s.indexOf('/');
    if (k >= 0) return Double.parseDouble(s.substring(0, k)) / Double.parseDouble(s.substring(k + 1));
    return Double.parseDouble(s);
  }
  // simple fractions are taken to be exact, everything else is known to the digits printed
  public static Value NAbout(Value s) {
    double v = parse(((StringValue) s).val.toString());
    boolean simple = Math.abs(v) < 1e4 && v * 64 == Math.rint(v * 64);
    return simple ? elem(v) : put(v, Math.abs(v) * 6e-7, false);
  }
  public static Value NConv(Value s) { return elem(parse(((StringValue) s).val.toString())); }

  static N add(N a, N b) {
    if (a == null || b == null) return null;
    double r = a.v + b.v;
    boolean x = a.x && b.x;
    if (x) { double bb = r - a.v; double err = (a.v - (r - bb)) + (b.v - bb); x = err == 0; }
    return new N(r, a.e + b.e + Math.abs(r) * U, x);
  }
  static N neg(N a) { return a == null ? null : new N(-a.v, a.e, a.x); }
  static N mul(N a, N b) {
    if (a == null || b == null) return null;
    double r = a.v * b.v;
    boolean x = a.x && b.x;
    if (x) x = Math.fma(a.v, b.v, -r) == 0 && (r != 0 || a.v == 0 || b.v == 0);
    return new N(r, Math.abs(a.v) * b.e + Math.abs(b.v) * a.e + a.e * b.e + Math.abs(r) * U, x);
  }
  static N div(N a, N b) {
    if (a == null || b == null || b.v == 0) return null;
    if (!b.x && Math.abs(b.v) <= 1e3 * b.e) return null;
    double r = a.v / b.v;
    boolean x = a.x && b.x;
    // exact only when every way of dividing is: the divisor is a power of two
    if (x) { int ex = Math.getExponent(b.v); x = Math.abs(b.v) == Math.scalb(1.0, ex) || a.v == 0; }
    double ab = Math.abs(b.v);
    return new N(r, a.e / ab + Math.abs(r) * b.e / ab + Math.abs(r) * 2 * U, x);
  }
  public static Value NAdd(Value a, Value b) { return put(add(get(a), get(b))); }
  public static Value NSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
  public static Value NMul(Value a, Value b) { return put(mul(get(a), get(b))); }
  public static Value NNeg(Value a) { return put(neg(get(a))); }
  public static Value NDiv(Value a, Value b) { return put(div(get(a), get(b))); }
  public static Value NBlur(Value a) { N n = get(a); return n == null ? NAR : put(n.v, n.e + 1e-12 * Math.max(1, Math.abs(n.v)), false); }
  static Value[] seq(Value a) { return ((TupleValue) a.toTuple()).elems; }
  public static Value NDot(Value a, Value b, Value lo, Value hi, Value s) {
    Value[] x = seq(a), y = seq(b);
    int l = ((IntValue) lo).val, h = ((IntValue) hi).val, ss = ((IntValue) s).val;
    N r = new N(0, 0, true);
    for (int i = l; i <= h; i++) {
      r = add(r, mul(get(x[i - 1]), get(y[ss - i - 1])));
      if (r == null) return NAR;
    }
    return put(r);
  }
  static final double RP2 = 0.88622692545275801364908374167057; // sqrt(pi)/2
  /** integral of exp(-t^2) from 0 to x */
  static double erfs(double x) {
    if (Math.abs(x) < 3) { // series
      double t = x, s = x;
      for (int n = 1; n < 200; n++) { t *= -x * x / n; double u = t / (2 * n + 1); s += u; if (Math.abs(u) < 1e-19 * Math.abs(s)) break; }
      return s;
    }
    double ax = Math.abs(x), f = 0; // continued fraction of erfc
    for (int n = 120; n >= 1; n--) f = (n / 2.0) / (ax + f);
    double c = Math.exp(-ax * ax) / (ax + f) / 2;
    return Math.signum(x) * (RP2 - c);
  }
  static double asinh(double x) { double a = Math.abs(x); double r = a < 1e-4 ? a - a * a * a / 6 : Math.log1p(a + a * a / (1 + Math.sqrt(a * a + 1))); return Math.signum(x) * r; }
  static double atanh(double x) { return 0.5 * Math.log1p(2 * x / (1 - x)); }
  static double acosh(double x) { double t = x - 1; return Math.log1p(t + Math.sqrt(2 * t + t * t)); }
  public static Value NFun(Value f, Value a) {
    N n = get(a);
    if (n == null) return NAR;
    double v = n.v, r, d; boolean x = false;
    switch (((StringValue) f).val.toString()) {
      case "exp": r = Math.exp(v); d = r; x = n.x && v == 0; break;
      case "log": if (v <= 0 || v <= 10 * n.e) return NAR; r = Math.log(v); d = 1 / v; x = n.x && v == 1; break;
      case "sqrt": if (v < 0 || (v <= 10 * n.e && !(n.x))) return NAR; r = Math.sqrt(v); if (v == 0) return put(0, 0, true); d = 0.5 / r; x = n.x && Math.fma(r, r, -v) == 0; break;
      case "cbrt": r = Math.cbrt(v); if (v == 0) return n.x ? put(0, 0, true) : NAR; d = Math.abs(r / v / 3); break;
      case "sin": r = Math.sin(v); d = Math.abs(Math.cos(v)) + Math.abs(n.e); x = n.x && v == 0; break;
      case "cos": r = Math.cos(v); d = Math.abs(Math.sin(v)) + Math.abs(n.e); x = n.x && v == 0; break;
      case "asin": if (Math.abs(v) >= 1 - 1e3 * n.e) return NAR; r = Math.asin(v); d = 1 / Math.sqrt((1 - v) * (1 + v)); x = n.x && v == 0; break;
      case "acos": if (Math.abs(v) >= 1 - 1e3 * n.e) return NAR; r = Math.acos(v); d = 1 / Math.sqrt((1 - v) * (1 + v)); break;
      case "atan": r = Math.atan(v); d = 1 / (1 + v * v); x = n.x && v == 0; break;
      case "sinh": r = Math.sinh(v); d = Math.cosh(v); x = n.x && v == 0; break;
      case "cosh": r = Math.cosh(v); d = Math.cosh(v); x = n.x && v == 0; break;
      case "asinh": r = asinh(v); d = 1 / Math.sqrt(1 + v * v); x = n.x && v == 0; break;
      case "acosh": if (v <= 1 + 1e3 * n.e) return NAR; r = acosh(v); d = 1 / Math.sqrt((v - 1) * (v + 1)); break;
      case "atanh": if (Math.abs(v) >= 1 - 1e3 * n.e) return NAR; r = atanh(v); d = 1 / ((1 - v) * (1 + v)); x = n.x && v == 0; break;
      case "erf": r = erfs(v); d = Math.exp(-v * v); x = n.x && v == 0; break;
      case "floor": case "ceil": {
        if (!n.x && Math.abs(v - Math.rint(v)) <= 1e6 * n.e + 1e-12) return NAR;
        r = ((StringValue) f).val.toString().equals("floor") ? Math.floor(v) : Math.ceil(v);
        return put(r, 0, true);
      }
      default: throw new RuntimeException("NFun: " + f);
    }
    if (f != null && !(n.e <= 1e-3 * Math.max(1, Math.abs(v)))) return NAR;
    return put(r, Math.abs(d) * n.e * 2 + Math.abs(r) * 4 * U, x);
  }
  public static Value NPow(Value a, Value b) {
    N x = get(a), y = get(b);
    if (x == null || y == null || x.v <= 0 || x.v <= 10 * x.e) return NAR;
    double r = Math.pow(x.v, y.v);
    double e = Math.abs(r) * (Math.abs(y.v) * x.e / x.v + Math.abs(Math.log(x.v)) * y.e) * 2 + Math.abs(r) * 8 * U * (1 + Math.abs(y.v));
    return put(r, e, false);
  }
  public static Value NAtan2(Value a, Value b) {
    N y = get(a), x = get(b);
    if (x == null || y == null) return NAR;
    double h = Math.hypot(x.v, y.v);
    if (h <= 1e3 * (x.e + y.e)) return NAR;
    if (x.v < 0 && Math.abs(y.v) <= 1e3 * y.e) return NAR; // branch cut
    double r = Math.atan2(y.v, x.v);
    return put(r, (x.e + y.e) / h + Math.abs(r) * 4 * U, y.v == 0 && y.x && x.x);
  }
  static int sign(N n) {
    if (n == null) return 2;
    if (n.x) return n.v > 0 ? 1 : n.v < 0 ? -1 : 0;
    if (Math.abs(n.v) <= 1e6 * n.e) return 2;
    return n.v > 0 ? 1 : -1;
  }
  public static Value NSign(Value a) { return IntValue.gen(sign(get(a))); }
  public static Value NCmp(Value a, Value b) { return IntValue.gen(sign(add(get(a), neg(get(b))))); }
  public static Value NTrunc(Value a) { N n = get(a); if (n == null) return IntValue.gen(-1000000000); return IntValue.gen((int) n.v); }
  public static Value NExact(Value a) { N n = get(a); return n != null && n.x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static boolean match(N n, String s) {
    double o = s.equals("nan") ? Double.NaN : s.equals("inf") ? Double.POSITIVE_INFINITY : s.equals("-inf") ? Double.NEGATIVE_INFINITY : Double.parseDouble(s);
    if (Double.isNaN(o) || Double.isInfinite(o)) return false;
    return Math.abs(o - n.v) <= 2e4 * n.e + 2e-12 * Math.abs(n.v) + 1e-200;
  }
  static boolean near(N n, String s, double tol) {
    if (s.endsWith("nan") || s.endsWith("inf")) return false;
    return Math.abs(Double.parseDouble(s) - n.v) <= tol;
  }
  public static Value NMatch(Value a, Value s) {
    N n = get(a);
    if (n == null) return BoolValue.ValTrue;
    return match(n, ((StringValue) s).val.toString()) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value NMatchSeq(Value a, Value s) {
    Value[] x = seq(a), y = seq(s);
    int bad = 0, c = 0, u = 0;
    if (x.length != y.length) bad = Math.min(x.length, y.length) + 1;
    // rounding of an evaluation in another order is bounded by the error bound of each
    // number, but at least by this fraction of the largest number compared
    double big = 0;
    for (int i = 0; i < Math.min(x.length, y.length); i++) {
      N n = get(x[i]);
      if (n != null) big = Math.max(big, Math.abs(n.v));
    }
    for (int i = 0; i < Math.min(x.length, y.length); i++) {
      N n = get(x[i]);
      if (n == null) { u++; continue; }
      if (near(n, ((StringValue) y[i]).val.toString(), 1e-11 * Math.max(1, big))) { c++; continue; }
      c++;
      if (bad == 0 && !match(n, ((StringValue) y[i]).val.toString())) { bad = i + 1; }
    }
    return new TupleValue(new Value[] { IntValue.gen(bad), IntValue.gen(c), IntValue.gen(u) });
  }
  public static Value NShow(Value a) { N n = get(a); return new StringValue(n == null ? "NaR" : n.v + (n.x ? "" : "~" + (float) n.e)); }
  public static Value NObs(Value s) {
    String t = ((StringValue) s).val.toString();
    if (t.endsWith("nan") || t.endsWith("inf")) return NAR;
    double v = Double.parseDouble(t);
    return put(v, Math.abs(v) * 1e-14, false);
  }
}
