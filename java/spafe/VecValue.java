package spafe;

import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;

/** A dense sequence of doubles: a TLA+ function with domain 1..n. */
public final class VecValue extends Value implements FunctionValue {
  public final double[] v;
  public VecValue(double[] v) { this.v = v; }
  @Override public byte getKind() { return USERVALUE; }
  private TupleValue tup() {
    Value[] e = new Value[v.length];
    for (int i = 0; i < e.length; i++) e[i] = new DblValue(v[i]);
    return new TupleValue(e);
  }
  @Override public int compareTo(Object o) {
    if (o instanceof VecValue) {
      double[] w = ((VecValue) o).v;
      if (w.length != v.length) return v.length - w.length;
      for (int i = 0; i < v.length; i++) { int c = Double.compare(v[i], w[i]); if (c != 0) return c; }
      return 0;
    }
    return tup().compareTo(o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof VecValue) return compareTo(o) == 0;
    if (o instanceof Value && ((Value) o).toTuple() instanceof TupleValue) return tup().equals(((Value) o).toTuple());
    return false;
  }
  @Override public boolean member(Value x) { throw new RuntimeException("member of a vector"); }
  @Override public boolean isFinite() { return true; }
  @Override public Value apply(Value a, int control) { return select(a); }
  @Override public Value select(Value a) {
    int i = ((IntValue) a).val;
    if (i < 1 || i > v.length) throw new RuntimeException("index " + i + " out of 1.." + v.length);
    return new DblValue(v[i - 1]);
  }
  @Override public Value getDomain() { return new IntervalValue(1, v.length); }
  @Override public Value takeExcept(ValueExcept ex) { return tup().takeExcept(ex); }
  @Override public Value takeExcept(ValueExcept[] exs) { return tup().takeExcept(exs); }
  @Override public int size() { return v.length; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public void deepNormalize() { }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public Value toTuple() { return tup(); }
  @Override public Value toFcnRcd() { return tup().toFcnRcd(); }
  @Override public void write(IValueOutputStream vos) { throw new RuntimeException("vectors cannot be spooled to disk"); }
  @Override public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, 78);
    for (double x : v) fp = FP64.Extend(fp, Double.doubleToLongBits(x));
    return fp;
  }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    sb.append("<<");
    for (int i = 0; i < v.length; i++) { if (i > 0) sb.append(", "); if (i == 12 && v.length > 24) { sb.append("..."); break; } sb.append(v[i]); }
    return sb.append(">>");
  }
}
