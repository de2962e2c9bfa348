// TLC module override for Reals64.tla: IEEE-754 arithmetic only, no modelling content.
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class Reals64 {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof TupleValue) { Value[] e = ((TupleValue) v).elems; return bits(e[0], e[1]); }
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return bits(e[0], e[1]);
  }
  static double bits(Value hi, Value lo) {
    return Double.longBitsToDouble((((long) ((IntValue) hi).val) << 32) | (((IntValue) lo).val & 0xffffffffL));
  }
  static Value r(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RDec(IntValue n, IntValue m) { return r((double) n.val / (double) m.val); }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RHyp(Value a, Value c) { double x = d(a), y = d(c); return r(Math.sqrt(x * x + y * y)); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RSinD(Value a) { return r(Math.sin(d(a) * (Math.PI / 180.))); }
  public static Value RCosD(Value a) { return r(Math.cos(d(a) * (Math.PI / 180.))); }
  public static Value RAcosD(Value a) { return r(Math.acos(Math.max(-1., Math.min(1., d(a)))) * (180. / Math.PI)); }
  public static Value RAtan2D(Value y, Value x) { return r(Math.atan2(d(y), d(x)) * (180. / Math.PI)); }
  public static Value RAtanD(Value a) { return r(Math.atan(d(a)) * (180. / Math.PI)); }
  static Value i(double x) {
    return IntValue.gen(x > 2e9 ? 2000000000 : x < -2e9 ? -2000000000 : (int) x);
  }
  public static Value RFloor(Value a) { return i(Math.floor(d(a))); }
  public static Value RCeil(Value a) { return i(Math.ceil(d(a))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { double x = d(a), y = d(c); return b(x == y || (x != x && y != y)); }
  static double diff(double x, double y) {
    if (x == y || (x != x && y != y)) return 0.;
    double m = Math.abs(x - y) / Math.max(1., Math.max(Math.abs(x), Math.abs(y)));
    return m != m ? Double.POSITIVE_INFINITY : m;
  }
  public static Value RNear(Value a, Value c, Value t) { return b(diff(d(a), d(c)) <= d(t)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RSum(Value s) { double t = 0.; for (Value v : seq(s)) t += d(v); return r(t); }
  public static Value RPrefix(Value s) {
    Value[] x = seq(s), y = new Value[x.length + 1]; double t = 0.; y[0] = r(0.);
    for (int k = 0; k < x.length; k++) { t += d(x[k]); y[k + 1] = r(t); }
    return new TupleValue(y);
  }
  public static Value RDot(Value s, Value u) {
    Value[] x = seq(s), y = seq(u); double t = 0.;
    for (int k = 0; k < x.length; k++) t += d(x[k]) * d(y[k]);
    return r(t);
  }
  public static Value RMaxDiff(Value s, Value u) {
    Value[] x = seq(s), y = seq(u);
    if (x.length != y.length) return r(Double.POSITIVE_INFINITY);
    double m = 0.;
    for (int k = 0; k < x.length; k++) m = Math.max(m, diff(d(x[k]), d(y[k])));
    return r(m);
  }
  public static Value E(IntValue k) { return r(Math.pow(10., -k.val)); }
  public static Value RShow(Value a) { return new StringValue(Double.toString(d(a))); }
}
