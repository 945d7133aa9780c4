package spafe;

import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.function.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.EvalControl;
import tlc2.value.impl.*;

/** IEEE-double evaluation of the operators that module Flt declares. */
public final class FltOps {
  // ------------------------------------------------------------------ access
  static boolean isNum(Value v) { return v instanceof DblValue || v instanceof IntValue; }
  static double num(Value v) {
    if (v instanceof DblValue) return ((DblValue) v).d;
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof BoolValue) return ((BoolValue) v).val ? 1 : 0;
    throw new RuntimeException("number expected, got " + v.getKindString() + " " + trunc(v));
  }
  static String trunc(Value v) { String s = v.toString(); return s.length() > 80 ? s.substring(0, 80) : s; }
  static Value[] elems(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    if (v instanceof VecValue) return ((TupleValue) v.toTuple()).elems;
    if (v instanceof DblValue || v instanceof IntValue || v instanceof StringValue || v instanceof BoolValue || v instanceof RecordValue) return null;
    Value t = v.toTuple();
    return t == null ? null : ((TupleValue) t).elems;
  }
  static double[] vec(Value v) {
    if (v instanceof VecValue) return ((VecValue) v).v;
    Value[] e = elems(v);
    if (e == null) throw new RuntimeException("sequence expected, got " + trunc(v));
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = num(e[i]);
    return r;
  }
  static double[][] mat(Value v) {
    Value[] e = elems(v);
    double[][] r = new double[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value mk(double d) { return new DblValue(d); }
  static Value mk(double[] d) { return new VecValue(d); }
  static Value mk(double[][] d) { Value[] r = new Value[d.length]; for (int i = 0; i < r.length; i++) r[i] = new VecValue(d[i]); return new TupleValue(r); }
  static Value seq(Value[] e) {
    if (e.length == 0) return new VecValue(new double[0]);
    for (Value x : e) if (!(x instanceof DblValue)) return new TupleValue(e);
    double[] d = new double[e.length];
    for (int i = 0; i < d.length; i++) d[i] = ((DblValue) e[i]).d;
    return new VecValue(d);
  }
  static int in(Value v) { if (v instanceof IntValue) return ((IntValue) v).val; double d = num(v); if (d != Math.rint(d)) throw new RuntimeException("integer expected: " + d); return (int) d; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ------------------------------------------------- pointwise lifting to sequences
  static Value un(Value a, DoubleUnaryOperator f) {
    if (isNum(a)) return mk(f.applyAsDouble(num(a)));
    if (a instanceof VecValue) { double[] x = ((VecValue) a).v, r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = f.applyAsDouble(x[i]); return mk(r); }
    Value[] e = elems(a); if (e == null) return mk(f.applyAsDouble(num(a)));
    Value[] r = new Value[e.length]; for (int i = 0; i < r.length; i++) r[i] = un(e[i], f); return seq(r);
  }
  static Value bi(Value a, Value b, DoubleBinaryOperator f) {
    if (isNum(a)) { double x = num(a); return un(b, y -> f.applyAsDouble(x, y)); }
    if (isNum(b)) { double y = num(b); return un(a, x -> f.applyAsDouble(x, y)); }
    if (a instanceof VecValue && b instanceof VecValue) {
      double[] x = ((VecValue) a).v, y = ((VecValue) b).v; if (x.length != y.length) throw new RuntimeException("length mismatch " + x.length + " " + y.length);
      double[] r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = f.applyAsDouble(x[i], y[i]); return mk(r);
    }
    Value[] e = elems(a), g = elems(b);
    if (e == null || g == null) throw new RuntimeException("cannot combine " + trunc(a) + " and " + trunc(b));
    if (e.length != g.length) throw new RuntimeException("length mismatch " + e.length + " " + g.length);
    Value[] r = new Value[e.length]; for (int i = 0; i < r.length; i++) r[i] = bi(e[i], g[i], f); return seq(r);
  }
  @TLAPlusOperator(identifier = "FAdd", module = "Flt", warn = false) public static Value add(Value a, Value b) { return bi(a, b, (x, y) -> x + y); }
  @TLAPlusOperator(identifier = "FSub", module = "Flt", warn = false) public static Value sub(Value a, Value b) { return bi(a, b, (x, y) -> x - y); }
  @TLAPlusOperator(identifier = "FMul", module = "Flt", warn = false) public static Value mul(Value a, Value b) { return bi(a, b, (x, y) -> x * y); }
  @TLAPlusOperator(identifier = "FDiv", module = "Flt", warn = false) public static Value div(Value a, Value b) { return bi(a, b, (x, y) -> x / y); }
  @TLAPlusOperator(identifier = "FPow", module = "Flt", warn = false) public static Value pow(Value a, Value b) { return bi(a, b, Math::pow); }
  @TLAPlusOperator(identifier = "FMax", module = "Flt", warn = false) public static Value fmax(Value a, Value b) { return bi(a, b, Math::max); }
  @TLAPlusOperator(identifier = "FMin", module = "Flt", warn = false) public static Value fmin(Value a, Value b) { return bi(a, b, Math::min); }
  @TLAPlusOperator(identifier = "FAtan2", module = "Flt", warn = false) public static Value atan2(Value a, Value b) { return bi(a, b, Math::atan2); }
  @TLAPlusOperator(identifier = "FNeg", module = "Flt", warn = false) public static Value neg(Value a) { return un(a, x -> -x); }
  @TLAPlusOperator(identifier = "FAbs", module = "Flt", warn = false) public static Value abs(Value a) { return un(a, Math::abs); }
  @TLAPlusOperator(identifier = "Sqrt", module = "Flt", warn = false) public static Value sqrt(Value a) { return un(a, Math::sqrt); }
  @TLAPlusOperator(identifier = "Exp", module = "Flt", warn = false) public static Value exp(Value a) { return un(a, Math::exp); }
  @TLAPlusOperator(identifier = "Ln", module = "Flt", warn = false) public static Value ln(Value a) { return un(a, Math::log); }
  @TLAPlusOperator(identifier = "Log10", module = "Flt", warn = false) public static Value log10(Value a) { return un(a, Math::log10); }
  @TLAPlusOperator(identifier = "Sin", module = "Flt", warn = false) public static Value sin(Value a) { return un(a, Math::sin); }
  @TLAPlusOperator(identifier = "Cos", module = "Flt", warn = false) public static Value cos(Value a) { return un(a, Math::cos); }
  @TLAPlusOperator(identifier = "Tan", module = "Flt", warn = false) public static Value tan(Value a) { return un(a, Math::tan); }
  @TLAPlusOperator(identifier = "Atan", module = "Flt", warn = false) public static Value atan(Value a) { return un(a, Math::atan); }
  @TLAPlusOperator(identifier = "Sinh", module = "Flt", warn = false) public static Value sinh(Value a) { return un(a, Math::sinh); }
  static double asinh(double x) { double y = Math.abs(x); double r = Math.log1p(y + y * y / (1 + Math.sqrt(1 + y * y))); return x < 0 ? -r : r; }
  @TLAPlusOperator(identifier = "Arsinh", module = "Flt", warn = false) public static Value arsinh(Value a) { return un(a, FltOps::asinh); }
  static double i0(double x) { double t = 1, s = 1, q = x * x / 4; for (int k = 1; k < 500; k++) { t *= q / ((double) k * k); s += t; if (t < s * 1e-18) break; } return s; }
  @TLAPlusOperator(identifier = "BesselI0", module = "Flt", warn = false) public static Value besselI0(Value a) { return un(a, FltOps::i0); }
  @TLAPlusOperator(identifier = "ZeroToEps", module = "Flt", warn = false) public static Value zeroToEps(Value a) { return un(a, x -> x == 0 ? Math.ulp(1.0) : x); }
  @TLAPlusOperator(identifier = "FFloor", module = "Flt", warn = false) public static Value ffloor(Value a) { return un(a, Math::floor); }
  @TLAPlusOperator(identifier = "Floor", module = "Flt", warn = false) public static Value floor(Value a) { return IntValue.gen((int) Math.floor(num(a))); }
  @TLAPlusOperator(identifier = "Trunc", module = "Flt", warn = false) public static Value trunci(Value a) { return IntValue.gen((int) num(a)); }
  @TLAPlusOperator(identifier = "Ceil", module = "Flt", warn = false) public static Value ceil(Value a) { return IntValue.gen((int) Math.ceil(num(a))); }
  @TLAPlusOperator(identifier = "F", module = "Flt", warn = false) public static Value F(Value a) { return un(a, x -> x); }
  static final ConcurrentHashMap<String, DblValue> LITS = new ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "D", module = "Flt", warn = false) public static Value D(Value a) { return LITS.computeIfAbsent(((StringValue) a).val.toString(), t -> new DblValue(Double.parseDouble(t))); }
  @TLAPlusOperator(identifier = "Pi", module = "Flt", warn = false) public static Value Pi() { return mk(Math.PI); }
  @TLAPlusOperator(identifier = "FLt", module = "Flt", warn = false) public static Value flt(Value a, Value b) { return bool(num(a) < num(b)); }
  @TLAPlusOperator(identifier = "FLe", module = "Flt", warn = false) public static Value fle(Value a, Value b) { return bool(num(a) <= num(b)); }
  @TLAPlusOperator(identifier = "FEq", module = "Flt", warn = false) public static Value feq(Value a, Value b) { return bool(num(a) == num(b)); }
  @TLAPlusOperator(identifier = "Round3", module = "Flt", warn = false) public static Value round3(Value a) { return un(a, x -> Math.rint(x * 1000) / 1000); }

  // ------------------------------------------------------------------ sequences
  static Value force(Value v) { if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) { Value t = v.toTuple(); if (t != null) { Value[] e = ((TupleValue) t).elems; for (int i = 0; i < e.length; i++) e[i] = force(e[i]); return seq(e); } } return v; }
  static Value call(OpValue op, Value... args) { return force((Value) op.eval(args, EvalControl.Clear)); }
  /** Tab(n, Op): the sequence <<Op(0), ..., Op(n-1)>>. */
  @TLAPlusOperator(identifier = "Tab", module = "Flt", warn = false) public static Value tab(Value n, OpValue op) {
    int k = in(n); Value[] r = new Value[Math.max(k, 0)];
    for (int i = 0; i < k; i++) r[i] = call(op, IntValue.gen(i)); return seq(r);
  }
  @TLAPlusOperator(identifier = "Map", module = "Flt", warn = false) public static Value map(Value s, OpValue op) {
    Value[] e = elems(s), r = new Value[e.length]; for (int i = 0; i < r.length; i++) r[i] = call(op, e[i]); return seq(r);
  }
  @TLAPlusOperator(identifier = "Map2", module = "Flt", warn = false) public static Value map2(Value s, Value t, OpValue op) {
    Value[] e = elems(s), g = elems(t), r = new Value[e.length]; if (e.length != g.length) throw new RuntimeException("length mismatch"); for (int i = 0; i < r.length; i++) r[i] = call(op, e[i], g[i]); return seq(r);
  }
  @TLAPlusOperator(identifier = "Filter", module = "Flt", warn = false) public static Value filter(Value s, OpValue op) {
    List<Value> r = new ArrayList<>(); for (Value x : elems(s)) { Value b = call(op, x); if (!(b instanceof BoolValue)) throw new RuntimeException("boolean expected"); if (((BoolValue) b).val) r.add(x); } return seq(r.toArray(new Value[0]));
  }
  /** Scan(Op, init, s): <<init, Op(init,s[1]), ...>>, length Len(s)+1. */
  @TLAPlusOperator(identifier = "Scan", module = "Flt", warn = false) public static Value scan(OpValue op, Value init, Value s) {
    Value[] e = elems(s), r = new Value[e.length + 1]; r[0] = force(init); for (int i = 0; i < e.length; i++) r[i + 1] = call(op, r[i], e[i]); return seq(r);
  }
  @TLAPlusOperator(identifier = "Fold", module = "Flt", warn = false) public static Value fold(OpValue op, Value init, Value s) {
    Value[] e = elems(s); Value a = force(init); for (Value x : e) a = call(op, a, x); return a;
  }
  @TLAPlusOperator(identifier = "N", module = "Flt", warn = false) public static Value len(Value s) { if (s instanceof VecValue) return IntValue.gen(((VecValue) s).v.length); return IntValue.gen(elems(s).length); }
  @TLAPlusOperator(identifier = "At", module = "Flt", warn = false) public static Value at(Value s, Value i) { int k = in(i); if (s instanceof VecValue) return mk(((VecValue) s).v[k]); return elems(s)[k]; }
  /** Cut(s, i, n): n elements from 0-based position i. */
  @TLAPlusOperator(identifier = "Cut", module = "Flt", warn = false) public static Value cut(Value s, Value i, Value n) {
    int a = in(i), k = in(n);
    if (s instanceof VecValue) { double[] v = ((VecValue) s).v; if (a < 0 || a + k > v.length) throw new RuntimeException("cut out of range"); return mk(Arrays.copyOfRange(v, a, a + k)); }
    Value[] e = elems(s); if (a < 0 || a + k > e.length) throw new RuntimeException("cut out of range"); return seq(Arrays.copyOfRange(e, a, a + k));
  }
  @TLAPlusOperator(identifier = "Cat", module = "Flt", warn = false) public static Value cat(Value a, Value b) {
    Value[] e = elems(a), g = elems(b), r = Arrays.copyOf(e, e.length + g.length); System.arraycopy(g, 0, r, e.length, g.length); return seq(r);
  }
  @TLAPlusOperator(identifier = "Rev", module = "Flt", warn = false) public static Value rev(Value a) { Value[] e = elems(a).clone(); Collections.reverse(Arrays.asList(e)); return seq(e); }
  @TLAPlusOperator(identifier = "Const", module = "Flt", warn = false) public static Value konst(Value n, Value c) { double[] r = new double[in(n)]; Arrays.fill(r, num(c)); return mk(r); }
  @TLAPlusOperator(identifier = "Range0", module = "Flt", warn = false) public static Value range0(Value n) { double[] r = new double[in(n)]; for (int i = 0; i < r.length; i++) r[i] = i; return mk(r); }
  static double ksum(double[] x) { double s = 0, c = 0; for (double v : x) { double t = s + v; c += Math.abs(s) >= Math.abs(v) ? (s - t) + v : (v - t) + s; s = t; } return Double.isNaN(c) || Double.isInfinite(c) ? s : s + c; }
  @TLAPlusOperator(identifier = "Sum", module = "Flt", warn = false) public static Value sum(Value s) { return mk(ksum(vec(s))); }
  static double dotp(double[] a, double[] b) { if (a.length != b.length) throw new RuntimeException("length mismatch"); double s = 0; for (int i = 0; i < a.length; i++) s += a[i] * b[i]; return s; }
  @TLAPlusOperator(identifier = "Dot", module = "Flt", warn = false) public static Value dot(Value a, Value b) { return mk(dotp(vec(a), vec(b))); }
  @TLAPlusOperator(identifier = "MatVec", module = "Flt", warn = false) public static Value matvec(Value m, Value v) { double[][] M = mat(m); double[] x = vec(v), r = new double[M.length]; for (int i = 0; i < r.length; i++) r[i] = dotp(M[i], x); return mk(r); }
  /** MulT(A,B) = A . transpose(B). */
  @TLAPlusOperator(identifier = "MulT", module = "Flt", warn = false) public static Value mult(Value a, Value b) {
    double[][] A = mat(a), Bm = mat(b), r = new double[A.length][Bm.length]; for (int i = 0; i < A.length; i++) for (int j = 0; j < Bm.length; j++) r[i][j] = dotp(A[i], Bm[j]); return mk(r);
  }
  @TLAPlusOperator(identifier = "Transpose", module = "Flt", warn = false) public static Value transpose(Value a) {
    double[][] A = mat(a); int c = A.length == 0 ? 0 : A[0].length; double[][] r = new double[c][A.length]; for (int i = 0; i < A.length; i++) for (int j = 0; j < c; j++) r[j][i] = A[i][j]; return mk(r);
  }
  @TLAPlusOperator(identifier = "Flatten", module = "Flt", warn = false) public static Value flatten(Value a) { List<Double> l = new ArrayList<>(); flat(a, l); double[] r = new double[l.size()]; for (int i = 0; i < r.length; i++) r[i] = l.get(i); return mk(r); }
  static void flat(Value a, List<Double> l) { if (a instanceof VecValue) { for (double d : ((VecValue) a).v) l.add(d); return; } Value[] e = a instanceof DblValue || a instanceof IntValue ? null : elems(a); if (e == null) l.add(num(a)); else for (Value x : e) flat(x, l); }
  @TLAPlusOperator(identifier = "CumSum", module = "Flt", warn = false) public static Value cumsum(Value s) { double[] x = vec(s), r = new double[x.length]; double t = 0; for (int i = 0; i < r.length; i++) { t += x[i]; r[i] = t; } return mk(r); }
  @TLAPlusOperator(identifier = "MaxOf", module = "Flt", warn = false) public static Value maxof(Value s) { double[] x = vec(s); double m = Double.NEGATIVE_INFINITY; for (double d : x) m = Math.max(m, d); return mk(m); }
  @TLAPlusOperator(identifier = "MinOf", module = "Flt", warn = false) public static Value minof(Value s) { double[] x = vec(s); double m = Double.POSITIVE_INFINITY; for (double d : x) m = Math.min(m, d); return mk(m); }
  /** 0-based position of the first maximum / minimum. */
  @TLAPlusOperator(identifier = "ArgMax", module = "Flt", warn = false) public static Value argmax(Value s) { double[] x = vec(s); int m = 0; for (int i = 1; i < x.length; i++) if (x[i] > x[m]) m = i; return IntValue.gen(m); }
  @TLAPlusOperator(identifier = "ArgMin", module = "Flt", warn = false) public static Value argmin(Value s) { double[] x = vec(s); int m = 0; for (int i = 1; i < x.length; i++) if (x[i] < x[m]) m = i; return IntValue.gen(m); }

  // ------------------------------------------------------------------ transforms
  static final ConcurrentHashMap<Integer, double[][]> TW = new ConcurrentHashMap<>();
  static double[][] twiddle(int n) {
    return TW.computeIfAbsent(n, k -> { double[][] t = new double[2][k];
      for (int i = 0; i < k; i++) { long e = 8L * i; // exact at multiples of k/8
        if (4L * i % k == 0) { int q = (int) (4L * i / k); t[0][i] = q == 0 ? 1 : q == 2 ? -1 : 0; t[1][i] = q == 1 ? 1 : q == 3 ? -1 : 0; }
        else { double a = 2 * Math.PI * i / k; t[0][i] = Math.cos(a); t[1][i] = Math.sin(a); } }
      return t; });
  }
  /** forward DFT of (re,im) of length n, sign -1 (or +1 for the unnormalised inverse). */
  static double[][] dft(double[] re, double[] im, int n, int sign) {
    double[][] w = twiddle(n); double[] xr = Arrays.copyOf(re, n), xi = im == null ? new double[n] : Arrays.copyOf(im, n);
    if (n > 1 && (n & (n - 1)) == 0) {
      int lg = Integer.numberOfTrailingZeros(n);
      for (int i = 0; i < n; i++) { int j = Integer.reverse(i) >>> (32 - lg); if (j > i) { double t = xr[i]; xr[i] = xr[j]; xr[j] = t; t = xi[i]; xi[i] = xi[j]; xi[j] = t; } }
      for (int m = 2; m <= n; m *= 2) { int h = m / 2, st = n / m;
        for (int i = 0; i < n; i += m) for (int j = 0; j < h; j++) { double c = w[0][j * st], s = sign * w[1][j * st];
          int a = i + j, b = a + h; double tr = xr[b] * c - xi[b] * s, ti = xr[b] * s + xi[b] * c; xr[b] = xr[a] - tr; xi[b] = xi[a] - ti; xr[a] += tr; xi[a] += ti; } }
      return new double[][] { xr, xi };
    }
    double[] or = new double[n], oi = new double[n]; boolean cplx = im != null; int last = n; while (last > 0 && xr[last - 1] == 0 && xi[last - 1] == 0) last--;
    for (int k = 0; k < n; k++) { double sr = 0, si = 0; int ix = 0;
      for (int j = 0; j < last; j++) { double c = w[0][ix], s = sign * w[1][ix]; sr += xr[j] * c; si += xr[j] * s; if (cplx) { sr -= xi[j] * s; si += xi[j] * c; } ix += k; if (ix >= n) ix -= n; }
      or[k] = sr; oi[k] = si; }
    return new double[][] { or, oi };
  }
  /** Dft(x, n): <<re, im>> of the n-point DFT of the real sequence x, cut or zero-padded to n. */
  @TLAPlusOperator(identifier = "Dft", module = "Flt", warn = false) public static Value vdft(Value x, Value n) { int k = in(n); double[][] r = dft(vec(x), null, k, -1); return new TupleValue(mk(r[0]), mk(r[1])); }
  @TLAPlusOperator(identifier = "CDft", module = "Flt", warn = false) public static Value vcdft(Value re, Value im, Value n) { int k = in(n); double[][] r = dft(vec(re), vec(im), k, -1); return new TupleValue(mk(r[0]), mk(r[1])); }
  @TLAPlusOperator(identifier = "IDft", module = "Flt", warn = false) public static Value vidft(Value re, Value im, Value n) {
    int k = in(n); double[][] r = dft(vec(re), vec(im), k, 1); for (int i = 0; i < k; i++) { r[0][i] /= k; r[1][i] /= k; } return new TupleValue(mk(r[0]), mk(r[1]));
  }
  static final ConcurrentHashMap<Long, double[][]> DCTM = new ConcurrentHashMap<>();
  static double[][] dctm(int t, int n) {
    return DCTM.computeIfAbsent(t * 1000000L + n, z -> { double[][] m = new double[n][n];
      for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) { double v;
        if (t == 1) { double ek = k == 0 || k == n - 1 ? Math.sqrt(0.5) : 1, ej = j == 0 || j == n - 1 ? Math.sqrt(0.5) : 1; v = Math.sqrt(2.0 / (n - 1)) * ek * ej * Math.cos(Math.PI * ((long) j * k % (2L * (n - 1))) / (n - 1)); }
        else if (t == 2) v = Math.sqrt((k == 0 ? 1.0 : 2.0) / n) * Math.cos(Math.PI * ((long) k * (2 * j + 1) % (4L * n)) / (2.0 * n));
        else if (t == 3) v = Math.sqrt((j == 0 ? 1.0 : 2.0) / n) * Math.cos(Math.PI * ((long) j * (2 * k + 1) % (4L * n)) / (2.0 * n));
        else v = Math.sqrt(2.0 / n) * Math.cos(Math.PI * ((long) (2 * j + 1) * (2 * k + 1) % (8L * n)) / (4.0 * n));
        m[k][j] = v; }
      return m; });
  }
  @TLAPlusOperator(identifier = "DctOrtho", module = "Flt", warn = false) public static Value dct(Value x, Value type) { double[] v = vec(x), r = new double[v.length]; double[][] m = dctm(in(type), v.length); for (int i = 0; i < r.length; i++) r[i] = dotp(m[i], v); return mk(r); }
  /** Linear difference equation a0 y[n] = sum b_k x[n-k] - sum_{k>0} a_k y[n-k]. */
  @TLAPlusOperator(identifier = "Lfilter", module = "Flt", warn = false) public static Value lfilter(Value b, Value a, Value x) {
    double[] B = vec(b), A = vec(a), X = vec(x), y = new double[X.length];
    for (int n = 0; n < y.length; n++) { double s = 0; for (int k = 0; k < B.length && k <= n; k++) s += B[k] * X[n - k]; for (int k = 1; k < A.length && k <= n; k++) s -= A[k] * y[n - k]; y[n] = s / A[0]; }
    return mk(y);
  }
  /** Lags(x, p) = <<r_0, ..., r_{p-1}>>, r_k = sum_n x[n] x[n+k]. */
  @TLAPlusOperator(identifier = "Lags", module = "Flt", warn = false) public static Value lags(Value x, Value p) { double[] v = vec(x), r = new double[in(p)]; for (int k = 0; k < r.length; k++) { double s = 0; for (int n = 0; n + k < v.length; n++) s += v[n] * v[n + k]; r[k] = s; } return mk(r); }
  static double[] solve(double[][] a, double[] b) {
    int n = b.length; double[][] m = new double[n][]; for (int i = 0; i < n; i++) { m[i] = Arrays.copyOf(a[i], n + 1); m[i][n] = b[i]; }
    for (int c = 0; c < n; c++) { int p = c; for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c]) > Math.abs(m[p][c])) p = i; double[] t = m[c]; m[c] = m[p]; m[p] = t;
      for (int i = c + 1; i < n; i++) { double f = m[i][c] / m[c][c]; if (f != 0) for (int j = c; j <= n; j++) m[i][j] -= f * m[c][j]; } }
    double[] x = new double[n]; for (int i = n - 1; i >= 0; i--) { double s = m[i][n]; for (int j = i + 1; j < n; j++) s -= m[i][j] * x[j]; x[i] = s / m[i][i]; } return x;
  }
  /** ToeplitzSolve(r, b): x with sum_j r_|i-j| x_j = b_i. */
  @TLAPlusOperator(identifier = "ToeplitzSolve", module = "Flt", warn = false) public static Value tsolve(Value r, Value b) {
    double[] R = vec(r), Bv = vec(b); int n = Bv.length; double[][] a = new double[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = R[Math.abs(i - j)]; return mk(solve(a, Bv));
  }
  /** Reciprocal condition estimate of the symmetric Toeplitz matrix of r (order n), in the 1-norm. */
  @TLAPlusOperator(identifier = "ToeplitzRcond", module = "Flt", warn = false) public static Value trcond(Value r, Value nn) {
    double[] R = vec(r); int n = in(nn); double[][] a = new double[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = R[Math.abs(i - j)];
    double na = 0, ni = 0; for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < n; i++) s += Math.abs(a[i][j]); na = Math.max(na, s); double[] e = new double[n]; e[j] = 1; double[] x = solve(a, e); s = 0; for (double d : x) s += Math.abs(d); ni = Math.max(ni, s); }
    double c = 1 / (na * ni); return mk(Double.isNaN(c) ? 0 : c);
  }

  // ------------------------------------------------------------------ comparison (total)
  static boolean sameShape(Value a, Value b) {
    boolean na = isNum(a), nb = isNum(b); if (na || nb) return na && nb;
    if (a instanceof VecValue && b instanceof VecValue) return ((VecValue) a).v.length == ((VecValue) b).v.length;
    Value[] e = elems(a), g = elems(b); if (e == null || g == null || e.length != g.length) return false;
    for (int i = 0; i < e.length; i++) if (!sameShape(e[i], g[i])) return false; return true;
  }
  static double[] flatv(Value a) { if (a instanceof VecValue) return ((VecValue) a).v; List<Double> l = new ArrayList<>(); flat(a, l); double[] r = new double[l.size()]; for (int i = 0; i < r.length; i++) r[i] = l.get(i); return r; }
  static double maxabs(double[] x) { double m = 0; for (double d : x) { if (Double.isNaN(d)) return Double.NaN; m = Math.max(m, Math.abs(d)); } return m; }
  /** |a-b| <= atol + rtol*max(|a|,|b|) entry by entry, equal shapes, equal infinities; NaN is close to nothing. */
  @TLAPlusOperator(identifier = "CloseE", module = "Flt", warn = false) public static Value closeE(Value a, Value b, Value rt, Value at) {
    if (!sameShape(a, b)) return bool(false); double[] x = flatv(a), y = flatv(b); double r = num(rt), t = num(at);
    for (int i = 0; i < x.length; i++) { if (x[i] == y[i]) continue; if (!(Math.abs(x[i] - y[i]) <= t + r * Math.max(Math.abs(x[i]), Math.abs(y[i])))) return bool(false); if (Double.isInfinite(x[i]) || Double.isInfinite(y[i])) return bool(false); }
    return bool(true);
  }
  /** |a-b| <= rtol * (largest absolute entry of the whole array b), equal shapes. */
  @TLAPlusOperator(identifier = "CloseA", module = "Flt", warn = false) public static Value closeA(Value a, Value b, Value rt) {
    if (!sameShape(a, b)) return bool(false); double[] x = flatv(a), y = flatv(b); double s = num(rt) * Math.max(maxabs(y), Double.MIN_NORMAL); if (!(s < Double.POSITIVE_INFINITY)) return bool(false);
    for (int i = 0; i < x.length; i++) if (!(x[i] == y[i] || Math.abs(x[i] - y[i]) <= s)) return bool(false); return bool(true);
  }
  /** Matrices: |a-b| <= rtol * (largest absolute entry of that column of b) + atol * (largest entry of b); otherwise CloseA. */
  @TLAPlusOperator(identifier = "CloseC", module = "Flt", warn = false) public static Value closeC(Value a, Value b, Value rt, Value at) {
    if (!sameShape(a, b)) return bool(false); int[] sh = shp(b); if (sh == null || sh.length != 2 || sh[0] == 0) return closeA(a, b, rt);
    double[][] x = mat(a), y = mat(b); double r = num(rt), big = maxabs(flatv(b)), t = num(at) * big; if (!(big < Double.POSITIVE_INFINITY)) return bool(false);
    for (int j = 0; j < sh[1]; j++) { double m = 0; for (double[] row : y) m = Math.max(m, Math.abs(row[j])); double lim = Math.max(r * m, t) + Double.MIN_NORMAL;
      for (int i = 0; i < sh[0]; i++) if (!(x[i][j] == y[i][j] || Math.abs(x[i][j] - y[i][j]) <= lim)) return bool(false); }
    return bool(true);
  }
  @TLAPlusOperator(identifier = "SameBits", module = "Flt", warn = false) public static Value sameBits(Value a, Value b) {
    if (!sameShape(a, b)) return bool(false); double[] x = flatv(a), y = flatv(b); for (int i = 0; i < x.length; i++) if (Double.doubleToLongBits(x[i]) != Double.doubleToLongBits(y[i])) return bool(false); return bool(true);
  }
  @TLAPlusOperator(identifier = "MaxDiff", module = "Flt", warn = false) public static Value maxDiff(Value a, Value b) {
    if (!sameShape(a, b)) return mk(Double.POSITIVE_INFINITY); double[] x = flatv(a), y = flatv(b); double m = 0; for (int i = 0; i < x.length; i++) { double d = x[i] == y[i] ? 0 : Math.abs(x[i] - y[i]); if (Double.isNaN(d)) return mk(Double.NaN); m = Math.max(m, d); } return mk(m);
  }
  @TLAPlusOperator(identifier = "AllFinite", module = "Flt", warn = false) public static Value allFinite(Value a) { for (double d : flatv(a)) if (Double.isNaN(d) || Double.isInfinite(d)) return bool(false); return bool(true); }
  @TLAPlusOperator(identifier = "AllGe", module = "Flt", warn = false) public static Value allGe(Value a, Value b) { double t = num(b); for (double d : flatv(a)) if (!(d >= t)) return bool(false); return bool(true); }
  @TLAPlusOperator(identifier = "AllLe", module = "Flt", warn = false) public static Value allLe(Value a, Value b) { double t = num(b); for (double d : flatv(a)) if (!(d <= t)) return bool(false); return bool(true); }
  @TLAPlusOperator(identifier = "MaxAbs", module = "Flt", warn = false) public static Value vmaxabs(Value a) { return mk(maxabs(flatv(a))); }
  /** Shape of a nested rectangular sequence, as a sequence of Nat; <<-1>> if ragged or not numeric. */
  @TLAPlusOperator(identifier = "Shape", module = "Flt", warn = false) public static Value shape(Value a) {
    int[] s = shp(a); if (s == null) return new TupleValue(new Value[] { IntValue.gen(-1) }); Value[] r = new Value[s.length]; for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(s[i]); return new TupleValue(r);
  }
  static int[] shp(Value a) {
    if (isNum(a)) return new int[0]; if (a instanceof VecValue) return new int[] { ((VecValue) a).v.length };
    Value[] e = elems(a); if (e == null) return null; if (e.length == 0) return new int[] { 0 };
    int[] f = null; for (Value x : e) { int[] g = shp(x); if (g == null || (f != null && !Arrays.equals(f, g))) return null; f = g; }
    int[] r = new int[f.length + 1]; r[0] = e.length; System.arraycopy(f, 0, r, 1, f.length); return r;
  }
  @TLAPlusOperator(identifier = "IsNum", module = "Flt", warn = false) public static Value visnum(Value a) { return bool(isNum(a)); }
  @TLAPlusOperator(identifier = "IsStr", module = "Flt", warn = false) public static Value visstr(Value a) { return bool(a instanceof StringValue); }
  @TLAPlusOperator(identifier = "StrEq", module = "Flt", warn = false) public static Value streq(Value a, Value b) { return bool(a instanceof StringValue && b instanceof StringValue && a.equals(b)); }
  @TLAPlusOperator(identifier = "AnyEq", module = "Flt", warn = false) public static Value anyeq(Value a, Value b) { StringBuilder x = new StringBuilder(), y = new StringBuilder(); Json.write(x, a); Json.write(y, b); return bool(x.toString().contentEquals(y)); }
  static boolean near(Value a, Value b, double r) {
    if (a instanceof RecordValue || b instanceof RecordValue) {
      if (!(a instanceof RecordValue && b instanceof RecordValue)) return false;
      RecordValue x = (RecordValue) a, y = (RecordValue) b; if (x.names.length != y.names.length) return false;
      Map<String, Value> m = new HashMap<>(); for (int i = 0; i < y.names.length; i++) m.put(y.names[i].toString(), y.values[i]);
      for (int i = 0; i < x.names.length; i++) { Value o = m.get(x.names[i].toString()); if (o == null || !near(x.values[i], o, r)) return false; }
      return true;
    }
    if (a instanceof StringValue || b instanceof StringValue || a instanceof BoolValue || b instanceof BoolValue) return a.getClass() == b.getClass() && a.toString().equals(b.toString());
    if (isNum(a) && isNum(b)) { double x = num(a), y = num(b); return x == y || (x != x && y != y) || Math.abs(x - y) <= r * Math.abs(y); }
    if (isNum(a) || isNum(b)) return false;
    int[] sh = shp(b);
    boolean flat = a instanceof VecValue && b instanceof VecValue;
    if (!flat) { Value[] x = elems(a), y = elems(b); if (x.length != y.length) return false; for (int i = 0; i < x.length; i++) if (!near(x[i], y[i], r)) return false; return true; }
    double[] x = vec(a), y = vec(b); if (x.length != y.length) return false; double m = 0; for (double d : y) if (Math.abs(d) < Double.POSITIVE_INFINITY) m = Math.max(m, Math.abs(d));
    for (int i = 0; i < x.length; i++) if (!(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]) || Math.abs(x[i] - y[i]) <= r * m)) return false;
    return true;
  }
  /** NearAny(a, b, r): same structure, numbers equal up to r relative to the largest of their row; NaN equals NaN. */
  @TLAPlusOperator(identifier = "NearAny", module = "Flt", warn = false) public static Value nearAny(Value a, Value b, Value r) { return bool(near(a, b, num(r))); }
  @TLAPlusOperator(identifier = "Fmt1", module = "Flt", warn = false) public static Value fmt1(Value a) { return new StringValue(new java.math.BigDecimal(num(a)).setScale(1, java.math.RoundingMode.HALF_EVEN).toPlainString()); }
  @TLAPlusOperator(identifier = "ParseNum", module = "Flt", warn = false) public static Value parseNum(Value a) { try { return mk(Double.parseDouble(((StringValue) a).val.toString().replace('\u2212', '-'))); } catch (RuntimeException e) { return mk(Double.NaN); } }
  /** Guarded(Op): Op(0), or FALSE if it cannot be evaluated (a malformed implementation result). */
  @TLAPlusOperator(identifier = "Guarded", module = "Flt", warn = false) public static Value guarded(OpValue op) {
    try { return (Value) op.eval(new Value[] { IntValue.gen(0) }, EvalControl.Clear); }
    catch (RuntimeException e) { if (System.getenv("SPEC_DEBUG") != null) e.printStackTrace(); return new StringValue("error: " + String.valueOf(e.getMessage()).replace('\n', ' ')); }
  }
  @TLAPlusOperator(identifier = "IsTrue", module = "Flt", warn = false) public static Value isTrue(Value a) { return bool(a instanceof BoolValue && ((BoolValue) a).val); }
  @TLAPlusOperator(identifier = "IsRec", module = "Flt", warn = false) public static Value isRec(Value a) { return bool(a instanceof RecordValue || (a instanceof FcnRcdValue && a.toRcd() != null)); }
  // ------------------------------------------------------------------ environment
  @TLAPlusOperator(identifier = "Env", module = "Flt", warn = false) public static Value env(Value k) { String s = System.getenv(((StringValue) k).val.toString()); return new StringValue(s == null ? "" : s); }
  @TLAPlusOperator(identifier = "EnvInt", module = "Flt", warn = false) public static Value envint(Value k) { String s = System.getenv(((StringValue) k).val.toString()); return IntValue.gen(s == null ? 0 : Integer.parseInt(s)); }
  static final ConcurrentHashMap<String, Value> FILES = new ConcurrentHashMap<>();
  @TLAPlusOperator(identifier = "LoadTrace", module = "Flt", warn = false) public static Value load(Value path) {
    return FILES.computeIfAbsent(((StringValue) path).val.toString(), p -> { try { return Json.load(p); } catch (IOException e) { throw new RuntimeException(e); } });
  }
  @TLAPlusOperator(identifier = "EmitTo", module = "Flt", warn = false) public static Value emit(Value path, Value v) {
    StringBuilder b = new StringBuilder(); Json.write(b, v); b.append('\n');
    synchronized (FILES) { try { Files.write(Paths.get(((StringValue) path).val.toString()), b.toString().getBytes("UTF-8"), StandardOpenOption.CREATE, StandardOpenOption.APPEND); } catch (IOException e) { throw new RuntimeException(e); } }
    return BoolValue.ValTrue;
  }
}
