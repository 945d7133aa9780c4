package spafe;

import java.io.*;
import java.nio.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** JSON <-> TLA+ values. {"$f":b64,"s":[n]|[r,c]} is a dense double array; other numbers are Int when integral, else doubles. */
final class Json {
  private final String s; private int p = 0;
  private Json(String s) { this.s = s; }
  static Value parse(String t) { Json j = new Json(t); Value v = j.val(); return v; }
  private void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
  private Value val() {
    ws();
    char c = s.charAt(p);
    if (c == '{') return obj();
    if (c == '[') return arr();
    if (c == '"') return new StringValue(str());
    if (s.startsWith("true", p)) { p += 4; return BoolValue.ValTrue; }
    if (s.startsWith("false", p)) { p += 5; return BoolValue.ValFalse; }
    if (s.startsWith("null", p)) { p += 4; return new StringValue("None"); }
    if (s.startsWith("NaN", p)) { p += 3; return new DblValue(Double.NaN); }
    if (s.startsWith("Infinity", p)) { p += 8; return new DblValue(Double.POSITIVE_INFINITY); }
    if (s.startsWith("-Infinity", p)) { p += 9; return new DblValue(Double.NEGATIVE_INFINITY); }
    int q = p;
    while (q < s.length() && "+-0123456789.eE".indexOf(s.charAt(q)) >= 0) q++;
    String t = s.substring(p, q); p = q;
    if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) {
      long l = Long.parseLong(t);
      if (l >= Integer.MIN_VALUE && l <= Integer.MAX_VALUE) return IntValue.gen((int) l);
      return new DblValue(l);
    }
    return new DblValue(Double.parseDouble(t));
  }
  private String str() {
    StringBuilder b = new StringBuilder(); p++;
    int q = s.indexOf('"', p);
    int e = s.indexOf('\\', p);
    if (e < 0 || e > q) { String r = s.substring(p, q); p = q + 1; return r; }
    while (s.charAt(p) != '"') {
      char c = s.charAt(p++);
      if (c == '\\') {
        c = s.charAt(p++);
        switch (c) { case 'n': b.append('\n'); break; case 't': b.append('\t'); break; case 'r': b.append('\r'); break; case 'b': case 'f': break;
          case 'u': b.append((char) Integer.parseInt(s.substring(p, p + 4), 16)); p += 4; break; default: b.append(c); }
      } else b.append(c);
    }
    p++; return b.toString();
  }
  private Value arr() {
    p++; List<Value> l = new ArrayList<>(); ws();
    if (s.charAt(p) == ']') { p++; return new TupleValue(new Value[0]); }
    while (true) { l.add(val()); ws(); if (s.charAt(p++) == ']') break; }
    return new TupleValue(l.toArray(new Value[0]));
  }
  private Value obj() {
    p++; ws(); List<UniqueString> n = new ArrayList<>(); List<Value> v = new ArrayList<>();
    if (s.charAt(p) == '}') { p++; return new RecordValue(new UniqueString[0], new Value[0], false); }
    while (true) {
      ws(); String k = str(); ws(); p++;
      if (k.equals("$f")) {
        ws(); byte[] raw = Base64.getDecoder().decode(str());
        ws(); p++; ws(); str(); ws(); p++;            // , "s" :
        Value sh = val(); ws(); p++;                  // }
        Value[] e = ((TupleValue) sh).elems;
        DoubleBuffer db = ByteBuffer.wrap(raw).order(ByteOrder.LITTLE_ENDIAN).asDoubleBuffer();
        double[] d = new double[db.remaining()]; db.get(d);
        return shape(d, 0, e, 0);
      }
      n.add(UniqueString.uniqueStringOf(k)); v.add(val()); ws();
      if (s.charAt(p++) == '}') break;
    }
    return new RecordValue(n.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
  }
  private static Value shape(double[] d, int off, Value[] e, int k) {
    if (e.length == 0) return new DblValue(d[0]);
    int n = ((IntValue) e[k]).val;
    if (k == e.length - 1) return new VecValue(Arrays.copyOfRange(d, off, off + n));
    int st = 1; for (int i = k + 1; i < e.length; i++) st *= ((IntValue) e[i]).val;
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = shape(d, off + i * st, e, k + 1);
    return new TupleValue(r);
  }
  static Value load(String path) throws IOException {
    List<Value> l = new ArrayList<>();
    try (BufferedReader r = Files.newBufferedReader(Paths.get(path), StandardCharsets.UTF_8)) {
      for (String t; (t = r.readLine()) != null; ) if (!t.trim().isEmpty()) l.add(parse(t));
    }
    return new TupleValue(l.toArray(new Value[0]));
  }
  static void write(StringBuilder b, Value v) {
    if (v instanceof DblValue) { double d = ((DblValue) v).d; b.append(Double.isNaN(d) ? "NaN" : Double.isInfinite(d) ? (d > 0 ? "Infinity" : "-Infinity") : Double.toString(d)); }
    else if (v instanceof IntValue) b.append(((IntValue) v).val);
    else if (v instanceof BoolValue) b.append(((BoolValue) v).val);
    else if (v instanceof StringValue) quote(b, ((StringValue) v).val.toString());
    else if (v instanceof VecValue) { double[] d = ((VecValue) v).v; b.append('['); for (int i = 0; i < d.length; i++) { if (i > 0) b.append(','); write(b, new DblValue(d[i])); } b.append(']'); }
    else if (v instanceof RecordValue) wrec(b, (RecordValue) v);
    else if (v instanceof SetEnumValue || v instanceof IntervalValue || v instanceof SubsetValue || v instanceof SetPredValue || v instanceof SetCupValue) {
      Value t = v.toSetEnum(); t.normalize(); ValueVec ev = ((SetEnumValue) t).elems; b.append('[');
      for (int i = 0; i < ev.size(); i++) { if (i > 0) b.append(','); write(b, ev.elementAt(i)); } b.append(']');
    } else {
      Value t = v.toTuple();
      if (t != null) { Value[] e = ((TupleValue) t).elems; b.append('['); for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); write(b, e[i]); } b.append(']'); return; }
      Value r = v.toRcd();
      if (r != null) { wrec(b, (RecordValue) r); return; }
      quote(b, v.toString());
    }
  }
  private static void wrec(StringBuilder b, RecordValue r) {
    b.append('{'); for (int i = 0; i < r.names.length; i++) { if (i > 0) b.append(','); quote(b, r.names[i].toString()); b.append(':'); write(b, r.values[i]); } b.append('}');
  }
  private static void quote(StringBuilder b, String s) {
    b.append('"'); for (char c : s.toCharArray()) { if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < ' ') b.append(String.format("\\u%04x", (int) c)); else b.append(c); } b.append('"');
  }
}
