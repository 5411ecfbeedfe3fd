// TLC module override for Num.tla: IEEE double arithmetic on <<hi, lo>> pairs.
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
  private static double d(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value n(final double x) {
    final long b = Double.doubleToRawLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  private static final java.util.concurrent.ConcurrentHashMap<String, Double> lit = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value N(final Value s) {
    final String t = ((StringValue) s).val.toString();
    Double x = lit.get(t);
    if (x == null) { x = Double.parseDouble(t); lit.put(t, x); }
    return n(x);
  }
  public static Value NI(final Value i) { return n(((IntValue) i).val); }
  public static Value NTrunc(final Value a) { return IntValue.gen((int) d(a)); }
  public static Value NStr(final Value a) { return new StringValue(UniqueString.uniqueStringOf(Double.toString(d(a)))); }
  public static Value NAdd(final Value a, final Value c) { return n(d(a) + d(c)); }
  public static Value NSub(final Value a, final Value c) { return n(d(a) - d(c)); }
  public static Value NMul(final Value a, final Value c) { return n(d(a) * d(c)); }
  public static Value NDiv(final Value a, final Value c) { return n(d(a) / d(c)); }
  public static Value NNeg(final Value a) { return n(-d(a)); }
  public static Value NAbs(final Value a) { return n(Math.abs(d(a))); }
  public static Value NSqrt(final Value a) { return n(Math.sqrt(d(a))); }
  public static Value NFloor(final Value a) { return n(Math.floor(d(a))); }
  public static Value NCeil(final Value a) { return n(Math.ceil(d(a))); }
  public static Value NSin(final Value a) { return n(Math.sin(d(a))); }
  public static Value NCos(final Value a) { return n(Math.cos(d(a))); }
  public static Value NAsin(final Value a) { return n(Math.asin(d(a))); }
  public static Value NAcos(final Value a) { return n(Math.acos(d(a))); }
  public static Value NAtan2(final Value y, final Value x) { return n(Math.atan2(d(y), d(x))); }
  public static Value NHypot(final Value y, final Value x) { return n(Math.hypot(d(y), d(x))); }
  public static Value NLe(final Value a, final Value c) { return b(d(a) <= d(c)); }
  public static Value NLt(final Value a, final Value c) { return b(d(a) < d(c)); }
  public static Value NEq(final Value a, final Value c) { return b(d(a) == d(c)); }
  public static Value NFinite(final Value a) { final double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value NMax(final Value a, final Value c) { return n(Math.max(d(a), d(c))); }
  public static Value NMin(final Value a, final Value c) { return n(Math.min(d(a), d(c))); }
  // signed distance of two angles modulo 2 pi, in [-pi, pi]
  public static Value NAngDiff(final Value a, final Value c) { return n(Math.IEEEremainder(d(a) - d(c), 2 * Math.PI)); }
  // angle modulo 2 pi in [0, 2 pi)
  public static Value NMod2Pi(final Value a) {
    final double x = d(a), t = 2 * Math.PI;
    double r = x - t * Math.floor(x / t);
    if (r < 0) r += t;
    if (r >= t) r -= t;
    return n(r);
  }
  // sum of squares and sequences of numbers
  public static Value NSum(final Value s) {
    double r = 0;
    for (final Value v : ((TupleValue) s.toTuple()).elems) r += d(v);
    return n(r);
  }
  // ---- definite integrals by composite 10-point Gauss-Legendre quadrature
  private static final double[] GX = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
  private static final double[] GW = {0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881};
  // integral of u^p * (cos|sin)(t + a u + b u^2), u = 0..L
  private static double quad(final double t, final double a, final double bb, final double L, final boolean sin, final int p) {
    final double ph = Math.abs(a * L) + Math.abs(bb) * L * L;
    if (!(ph < 1e7) || Double.isNaN(t) || Double.isInfinite(L)) return Double.NaN;
    final int m = (int) Math.ceil(ph) + 1;
    final double h = L / m;
    double s = 0;
    for (int i = 0; i < m; i++) {
      final double c = (i + 0.5) * h;
      for (int k = 0; k < 5; k++) {
        for (int sg = -1; sg <= 1; sg += 2) {
          final double u = c + sg * 0.5 * h * GX[k];
          final double f = t + u * (a + bb * u);
          double w = sin ? Math.sin(f) : Math.cos(f);
          for (int q = 0; q < p; q++) w *= u;
          s += GW[k] * w;
        }
      }
    }
    return 0.5 * h * s;
  }
  public static Value NIntCos(final Value t, final Value a, final Value b, final Value L) { return n(quad(d(t), d(a), d(b), d(L), false, 0)); }
  public static Value NIntSin(final Value t, final Value a, final Value b, final Value L) { return n(quad(d(t), d(a), d(b), d(L), true, 0)); }
  public static Value NMomCos(final Value p, final Value t, final Value a, final Value b, final Value L) { return n(quad(d(t), d(a), d(b), d(L), false, ((IntValue) p).val)); }
  public static Value NMomSin(final Value p, final Value t, final Value a, final Value b, final Value L) { return n(quad(d(t), d(a), d(b), d(L), true, ((IntValue) p).val)); }
  // smallest eigenvalue of the symmetric part of a 3x3 matrix (cyclic Jacobi rotations)
  public static Value NMinEig(final Value m) {
    final double[][] a = new double[3][3];
    final Value[] r = ((TupleValue) m.toTuple()).elems;
    for (int i = 0; i < 3; i++) { final Value[] e = ((TupleValue) r[i].toTuple()).elems; for (int j = 0; j < 3; j++) a[i][j] = d(e[j]); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) a[i][j] = a[j][i] = 0.5 * (a[i][j] + a[j][i]);
    for (int sweep = 0; sweep < 60; sweep++) {
      if (Math.abs(a[0][1]) + Math.abs(a[0][2]) + Math.abs(a[1][2]) == 0) break;
      for (int p = 0; p < 2; p++) for (int q = p + 1; q < 3; q++) {
        if (a[p][q] == 0) continue;
        final double t0 = (a[q][q] - a[p][p]) / (2 * a[p][q]);
        final double t = (t0 >= 0 ? 1 : -1) / (Math.abs(t0) + Math.sqrt(t0 * t0 + 1)), c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < 3; k++) { final double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
        for (int k = 0; k < 3; k++) { final double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
        a[p][q] = a[q][p] = 0;
      }
    }
    return n(Math.min(a[0][0], Math.min(a[1][1], a[2][2])));
  }
}
