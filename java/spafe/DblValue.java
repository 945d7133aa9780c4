package spafe;

import tlc2.tool.EvalException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;

/** An IEEE-754 double as a TLA+ value (module Flt). */
public final class DblValue extends Value {
  public final double d;
  public DblValue(double d) { this.d = d; }
  @Override public byte getKind() { return USERVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof DblValue) return Double.compare(d, ((DblValue) o).d);
    if (o instanceof IntValue) return Double.compare(d, ((IntValue) o).val);
    return toString().compareTo(o.toString());
  }
  @Override public boolean equals(Object o) {
    if (o instanceof DblValue) return Double.doubleToLongBits(d) == Double.doubleToLongBits(((DblValue) o).d);
    return false;
  }
  @Override public boolean member(Value v) { throw new RuntimeException("member of a float"); }
  @Override public boolean isFinite() { return false; }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a float"); return ex.value; }
  @Override public Value takeExcept(ValueExcept[] exs) { if (exs.length != 0) throw new RuntimeException("EXCEPT on a float"); return this; }
  @Override public int size() { return 1; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream vos) { throw new RuntimeException("floats cannot be spooled to disk"); }
  @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, 77), Double.doubleToLongBits(d)); }
  @Override public IValue permute(IMVPerm p) { return this; }
  @Override public boolean isAtom() { return true; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(d); }
}
