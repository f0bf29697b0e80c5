// TLC operator overrides of module Num (see spec/Num.tla): real numbers as IEEE doubles.
// A real is the TLA+ value <<hi, lo>>: the two 32-bit halves of the double (with -0 = +0).
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.util.*;
import java.io.*;
import com.google.gson.*;

public class Num {
  static final class N extends TupleValue {
    final double v;
    N(double v, Value[] e) { super(e); this.v = v; }
  }
  static Value e(double x) {
    if (x == 0) x = 0.0;
    long b = Double.doubleToLongBits(x);
    return new N(x, new Value[]{IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)});
  }
  static double d(IValue v) {
    if (v instanceof N) return ((N) v).v;
    TupleValue t = (TupleValue) ((Value) v).toTuple();
    if (t == null || t.elems.length != 2) throw new RuntimeException("not a real: " + v);
    return Double.longBitsToDouble(((long) ((IntValue) t.elems[0]).val << 32)
        | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }

  public static Value NAdd(Value a, Value c) { return e(d(a) + d(c)); }
  public static Value NSub(Value a, Value c) { return e(d(a) - d(c)); }
  public static Value NMul(Value a, Value c) { return e(d(a) * d(c)); }
  public static Value NDiv(Value a, Value c) { return e(d(a) / d(c)); }
  public static Value NLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value NLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value NNeg(Value a) { return e(-d(a)); }
  public static Value NAbs(Value a) { return e(Math.abs(d(a))); }
  public static Value NMin(Value a, Value c) { return e(Math.min(d(a), d(c))); }
  public static Value NMax(Value a, Value c) { return e(Math.max(d(a), d(c))); }
  public static Value Sqrt(Value a) { return e(Math.sqrt(d(a))); }
  public static Value Cbrt(Value a) { return e(Math.cbrt(d(a))); }
  public static Value Exp(Value a) { return e(Math.exp(d(a))); }
  public static Value Ln(Value a) { return e(Math.log(d(a))); }
  public static Value Pow(Value a, Value c) { return e(Math.pow(d(a), d(c))); }
  public static Value Sinh(Value a) { return e(Math.sinh(d(a))); }
  public static Value Asinh(Value a) {
    double x = d(a), y = Math.abs(x);
    double r = Math.log1p(y + y * y / (1 + Math.sqrt(1 + y * y)));
    return e(x < 0 ? -r : r);
  }
  public static Value Tanh(Value a) { return e(Math.tanh(d(a))); }
  public static Value Cosh(Value a) { return e(Math.cosh(d(a))); }
  public static Value Rat(Value a, Value c) { return e((double) i(a) / (double) i(c)); }
  public static Value Int2Num(Value a) { return e(i(a)); }
  public static Value Floor(Value a) {
    double f = Math.floor(d(a));
    if (!(Math.abs(f) < 2e9)) throw new RuntimeException("Floor out of range: " + f);
    return IntValue.gen((int) f);
  }
  public static Value Ulp(Value a) { return e(Math.ulp(d(a))); }
  public static Value IsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value Dec(Value s) { return e(Double.parseDouble(((StringValue) s).val.toString())); }
  public static Value Show(Value a) { return new StringValue(Double.toString(d(a))); }
  // sums
  public static Value Sum(Value s) {
    double t = 0;
    for (Value x : seq(s)) t += d(x);
    return e(t);
  }
  public static Value Dot(Value a, Value c) {
    Value[] p = seq(a), q = seq(c);
    double t = 0;
    for (int k = 0; k < p.length; k++) t += d(p[k]) * d(q[k]);
    return e(t);
  }
  public static Value MaxOf(Value s) {
    double t = Double.NEGATIVE_INFINITY;
    for (Value x : seq(s)) { double y = d(x); if (Double.isNaN(y)) return e(y); t = Math.max(t, y); }
    return e(t);
  }
  public static Value MinOf(Value s) {
    double t = Double.POSITIVE_INFINITY;
    for (Value x : seq(s)) { double y = d(x); if (Double.isNaN(y)) return e(y); t = Math.min(t, y); }
    return e(t);
  }
  // dense matrices (sequence of rows)
  static double[][] m(Value a) {
    Value[] r = seq(a);
    double[][] o = new double[r.length][];
    for (int k = 0; k < r.length; k++) {
      Value[] c = seq(r[k]);
      o[k] = new double[c.length];
      for (int l = 0; l < c.length; l++) o[k][l] = d(c[l]);
    }
    return o;
  }
  static Value vec(double[] x) {
    Value[] o = new Value[x.length];
    for (int k = 0; k < x.length; k++) o[k] = e(x[k]);
    return new TupleValue(o);
  }
  static Value mat(double[][] x) {
    Value[] o = new Value[x.length];
    for (int k = 0; k < x.length; k++) o[k] = vec(x[k]);
    return new TupleValue(o);
  }
  static double[][] mul(double[][] a, double[][] c) {
    int n = a.length, l = c.length, q = c[0].length;
    double[][] o = new double[n][q];
    for (int r = 0; r < n; r++) for (int s = 0; s < q; s++) {
      double t = 0;
      for (int k = 0; k < l; k++) t += a[r][k] * c[k][s];
      o[r][s] = t;
    }
    return o;
  }
  public static Value MatMul(Value a, Value c) { return mat(mul(m(a), m(c))); }
  public static Value Transpose(Value a) {
    double[][] x = m(a), o = new double[x[0].length][x.length];
    for (int r = 0; r < x.length; r++) for (int s = 0; s < x[0].length; s++) o[s][r] = x[r][s];
    return mat(o);
  }
  public static Value MatAdd(Value a, Value c) {
    double[][] x = m(a), y = m(c);
    for (int r = 0; r < x.length; r++) for (int s = 0; s < x[r].length; s++) x[r][s] += y[r][s];
    return mat(x);
  }
  public static Value MatScale(Value k, Value a) {
    double[][] x = m(a); double f = d(k);
    for (double[] r : x) for (int s = 0; s < r.length; s++) r[s] *= f;
    return mat(x);
  }
  static double det(double[][] a) {
    if (a.length == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
         - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
         + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
  }
  public static Value Det(Value a) { return e(det(m(a))); }
  public static Value Inverse(Value a) {
    double[][] x = m(a); double D = det(x); int n = x.length;
    double[][] o = new double[n][n];
    if (n == 2) {
      o[0][0] = x[1][1] / D; o[0][1] = -x[0][1] / D; o[1][0] = -x[1][0] / D; o[1][1] = x[0][0] / D;
    } else {
      for (int r = 0; r < 3; r++) for (int s = 0; s < 3; s++) {
        int r1 = (s + 1) % 3, r2 = (s + 2) % 3, c1 = (r + 1) % 3, c2 = (r + 2) % 3;
        o[r][s] = (x[r1][c1] * x[r2][c2] - x[r1][c2] * x[r2][c1]) / D;
      }
    }
    return mat(o);
  }
  // Jacobi eigendecomposition of a symmetric matrix: eigenvalues and columns of eigenvectors.
  static double[] eig(double[][] a, double[][] v) {
    int n = a.length;
    for (int r = 0; r < n; r++) for (int s = 0; s < n; s++) v[r][s] = r == s ? 1 : 0;
    for (int sweep = 0; sweep < 60; sweep++) {
      double off = 0, dia = 0;
      for (int r = 0; r < n; r++) { dia += a[r][r] * a[r][r]; for (int s = r + 1; s < n; s++) off += a[r][s] * a[r][s]; }
      if (off <= 1e-40 * dia || off == 0) break;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
        if (a[p][q] == 0) continue;
        double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
        double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1));
        double c = 1 / Math.sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
        for (int k = 0; k < n; k++) { double x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
      }
    }
    double[] w = new double[n];
    for (int r = 0; r < n; r++) w[r] = a[r][r];
    return w;
  }
  // <<eigenvalues, matrix whose columns are the eigenvectors>>
  public static Value EigSym(Value a) {
    double[][] x = m(a); int n = x.length;
    double[][] v = new double[n][n];
    double[] w = eig(x, v);
    return new TupleValue(new Value[]{vec(w), mat(v)});
  }
  // V diag(w) V^T
  public static Value FromEig(Value w, Value v) {
    double[][] V = m(v); int n = V.length;
    Value[] ws = seq(w);
    double[][] o = new double[n][n];
    for (int r = 0; r < n; r++) for (int s = 0; s < n; s++) {
      double t = 0;
      for (int k = 0; k < n; k++) t += V[r][k] * d(ws[k]) * V[s][k];
      o[r][s] = t;
    }
    return mat(o);
  }
  // trace file: one JSON object per line; numbers written with '.', 'e', or as "NaN"/"Infinity" strings are reals
  static Value conv(JsonElement j) {
    if (j.isJsonArray()) {
      JsonArray a = j.getAsJsonArray();
      Value[] o = new Value[a.size()];
      for (int k = 0; k < o.length; k++) o[k] = conv(a.get(k));
      return new TupleValue(o);
    }
    if (j.isJsonObject()) {
      Set<Map.Entry<String, JsonElement>> es = j.getAsJsonObject().entrySet();
      UniqueString[] n = new UniqueString[es.size()];
      Value[] v = new Value[es.size()];
      int k = 0;
      for (Map.Entry<String, JsonElement> x : es) { n[k] = UniqueString.uniqueStringOf(x.getKey()); v[k++] = conv(x.getValue()); }
      return new RecordValue(n, v, false);
    }
    JsonPrimitive p = j.getAsJsonPrimitive();
    if (p.isBoolean()) return b(p.getAsBoolean());
    String s = p.getAsString();
    if (p.isNumber()) {
      if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) return e(Double.parseDouble(s));
      return IntValue.gen(Integer.parseInt(s));
    }
    if (s.equals("NaN") || s.equals("Infinity") || s.equals("-Infinity")) return e(Double.parseDouble(s));
    return new StringValue(s);
  }
  public static Value ReadLog(Value file) throws Exception {
    List<Value> out = new ArrayList<>();
    try (BufferedReader r = new BufferedReader(new FileReader(((StringValue) file).val.toString()))) {
      String l;
      while ((l = r.readLine()) != null) if (!l.isEmpty()) out.add(conv(JsonParser.parseString(l)));
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  public static Value Merge(Value a, Value c) {
    RecordValue x = (RecordValue) a.toRcd(), y = (RecordValue) c.toRcd();
    LinkedHashMap<UniqueString, Value> o = new LinkedHashMap<>();
    for (int k = 0; k < x.names.length; k++) o.put(x.names[k], x.values[k]);
    for (int k = 0; k < y.names.length; k++) o.putIfAbsent(y.names[k], y.values[k]);
    return new RecordValue(o.keySet().toArray(new UniqueString[0]), o.values().toArray(new Value[0]), false);
  }
  // value of an environment variable
  public static Value Env(Value name) {
    String s = System.getenv(((StringValue) name).val.toString());
    return new StringValue(s == null ? "" : s);
  }
}
