// TLC module override for Mat.tla (same definitions, evaluated eagerly).
import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.value.impl.*;

public class Mat {
  private static double d(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value n(final double x) {
    final long b = Double.doubleToRawLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  private static double[][] m(final Value v) {
    final Value[] r = ((TupleValue) v.toTuple()).elems;
    final double[][] a = new double[r.length][];
    for (int i = 0; i < r.length; i++) {
      final Value[] e = ((TupleValue) r[i].toTuple()).elems;
      a[i] = new double[e.length];
      for (int j = 0; j < e.length; j++) a[i][j] = d(e[j]);
    }
    return a;
  }
  private static Value v(final double[][] a) {
    final Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) {
      final Value[] e = new Value[a[i].length];
      for (int j = 0; j < e.length; j++) e[j] = n(a[i][j]);
      r[i] = new TupleValue(e);
    }
    return new TupleValue(r);
  }
  public static Value MMul(final Value x, final Value y) {
    final double[][] a = m(x), b = m(y), c = new double[a.length][b[0].length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < b[0].length; j++) for (int k = 0; k < b.length; k++) c[i][j] += a[i][k] * b[k][j];
    return v(c);
  }
  public static Value MAdd(final Value x, final Value y) {
    final double[][] a = m(x), b = m(y);
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] += b[i][j];
    return v(a);
  }
  public static Value MSub(final Value x, final Value y) {
    final double[][] a = m(x), b = m(y);
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) a[i][j] -= b[i][j];
    return v(a);
  }
  public static Value MT(final Value x) {
    final double[][] a = m(x), c = new double[a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) c[j][i] = a[i][j];
    return v(c);
  }
  public static Value MaxAbs(final Value x) {
    double r = 0;
    for (final double[] q : m(x)) for (final double e : q) r = Math.max(r, Math.abs(e));
    return n(r);
  }
  public static Value MNear(final Value x, final Value y, final Value tol) {
    final double[][] a = m(x), b = m(y);
    final double t = d(tol);
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[i].length; j++) if (!(Math.abs(a[i][j] - b[i][j]) <= t)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value Inv3(final Value x) {
    // in exact arithmetic: the difference of products would cancel for ill-conditioned matrices
    final double[][] a = m(x), c = new double[3][3];
    final BigDecimal[][] b = new BigDecimal[3][3], k = new BigDecimal[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      if (Double.isNaN(a[i][j]) || Double.isInfinite(a[i][j])) { for (final double[] r : c) java.util.Arrays.fill(r, Double.NaN); return v(c); }
      b[i][j] = new BigDecimal(a[i][j]).round(MC);
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
      k[j][i] = b[(i + 1) % 3][(j + 1) % 3].multiply(b[(i + 2) % 3][(j + 2) % 3], MC).subtract(b[(i + 1) % 3][(j + 2) % 3].multiply(b[(i + 2) % 3][(j + 1) % 3], MC), MC);
    final BigDecimal det = b[0][0].multiply(k[0][0], MC).add(b[0][1].multiply(k[1][0], MC), MC).add(b[0][2].multiply(k[2][0], MC), MC);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i][j] = det.signum() == 0 ? Double.NaN : k[i][j].divide(det, MC).doubleValue();
    return v(c);
  }
  private static final MathContext MC = new MathContext(60);
}
