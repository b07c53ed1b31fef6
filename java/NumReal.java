// TLC module override for spec/NumReal.tla: IEEE-754 double arithmetic on
// numbers written as decimal strings, plus string <-> character sequences.
// Nothing here knows anything about the system under test.
import tlc2.value.impl.*;

public class NumReal {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.equals("inf")) return Double.POSITIVE_INFINITY;
      if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
      if (s.equals("nan") || s.equals("-nan")) return Double.NaN;
      return Double.parseDouble(s);
    }
    throw new RuntimeException("NumReal: not a number: " + v);
  }
  private static Value s(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    if (x == Double.POSITIVE_INFINITY) return new StringValue("inf");
    if (x == Double.NEGATIVE_INFINITY) return new StringValue("-inf");
    if (x == 0) return new StringValue("0");
    return new StringValue(Double.toString(x));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

  public static Value NInt(Value a) { return s(d(a)); }
  public static Value NAdd(Value a, Value c) { return s(d(a) + d(c)); }
  public static Value NSub(Value a, Value c) { return s(d(a) - d(c)); }
  public static Value NMul(Value a, Value c) { return s(d(a) * d(c)); }
  public static Value NDiv(Value a, Value c) { return s(d(a) / d(c)); }
  public static Value NLn(Value a) { return s(Math.log(d(a))); }
  public static Value NExp(Value a) { return s(Math.exp(d(a))); }
  public static Value NSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value NAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value NLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value NLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value NEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value NIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  // |a - b| <= tol * max(1, |a|, |b|); infinities equal only to themselves; NaN to nothing.
  public static Value NClose(Value a, Value c, Value tol) {
    double x = d(a), y = d(c), t = d(tol);
    if (x == y) return BoolValue.ValTrue;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
    return b(Math.abs(x - y) <= t * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y))));
  }
  public static Value NSumSeq(Value v) {
    double t = 0;
    for (Value x : seq(v)) t += d(x);
    return s(t);
  }
  // log of the sum of exponentials
  public static Value NLogSumExp(Value v) {
    double m = Double.NEGATIVE_INFINITY;
    Value[] e = seq(v);
    for (Value x : e) m = Math.max(m, d(x));
    if (Double.isInfinite(m)) return s(m);
    double t = 0;
    for (Value x : e) t += Math.exp(d(x) - m);
    return s(m + Math.log(t));
  }
  public static Value NFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value NLGamma(Value a) { return s(lgamma(d(a))); }
  private static final double[] LC = {
      0.99999999999999709182, 57.156235665862923517, -59.597960355475491248,
      14.136097974741747174, -0.49191381609762019978, .33994649984811888699e-4,
      .46523628927048575665e-4, -.98374475304879564677e-4, .15808870322491248884e-3,
      -.21026444172410488319e-3, .21743961811521264320e-3, -.16431810653676389022e-3,
      .84418223983852743293e-4, -.26190838401581408670e-4, .36899182659531622704e-5};
  private static double lgamma(double x) {
    if (Double.isNaN(x)) return x;
    if (x <= 0) {
      if (x == Math.floor(x)) return Double.POSITIVE_INFINITY;
      return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
    }
    if (x < 0.5) return lgamma(x + 1) - Math.log(x);
    if (x == 1 || x == 2) return 0;
    if (x > 50) {  // Stirling
      double z = 1 / (x * x);
      return (x - 0.5) * Math.log(x) - x + 0.5 * Math.log(2 * Math.PI)
          + (1.0 / 12 - z * (1.0 / 360 - z * (1.0 / 1260 - z / 1680))) / x;
    }
    double sum = LC[0];
    for (int i = 1; i < LC.length; i++) sum += LC[i] / (x - 1 + i);
    double t = x - 1 + 607.0 / 128.0 + 0.5;
    return (x - 0.5) * Math.log(t) - t + Math.log(2.5066282746310002 * sum);
  }
  // Strings
  public static Value Chars(Value v) {
    String x = ((StringValue) v).val.toString();
    Value[] r = new Value[x.length()];
    for (int i = 0; i < r.length; i++) r[i] = new StringValue(x.substring(i, i + 1));
    return new TupleValue(r);
  }
  public static Value Code(Value v) { return IntValue.gen(((StringValue) v).val.toString().charAt(0)); }
  public static Value FromCode(Value v) { return new StringValue(String.valueOf((char) ((IntValue) v).val)); }
  public static Value Join(Value v, Value sep) {
    StringBuilder sb = new StringBuilder();
    Value[] e = seq(v);
    for (int i = 0; i < e.length; i++) {
      if (i > 0) sb.append(((StringValue) sep).val.toString());
      sb.append(((StringValue) e[i]).val.toString());
    }
    return new StringValue(sb.toString());
  }
  public static Value IntStr(Value v) { return new StringValue(Integer.toString(((IntValue) v).val)); }
  // Non-empty pieces are not special: "a  b" splits into "a", "", "b".
  public static Value Split(Value v, Value sep) {
    String x = ((StringValue) v).val.toString(), d = ((StringValue) sep).val.toString();
    java.util.ArrayList<Value> r = new java.util.ArrayList<>();
    int o = 0;
    while (true) {
      int i = x.indexOf(d, o);
      if (i < 0) break;
      r.add(new StringValue(x.substring(o, i)));
      o = i + d.length();
    }
    r.add(new StringValue(x.substring(o)));
    return new TupleValue(r.toArray(new Value[0]));
  }
  // Text that is a decimal number, as an IEEE double would be read in full.
  public static Value IsNum(Value v) {
    try {
      Double.parseDouble(((StringValue) v).val.toString());
      return BoolValue.ValTrue;
    } catch (NumberFormatException e) {
      return BoolValue.ValFalse;
    }
  }
  // The number an input stream reads off the front of a text: 0 if there is none.
  public static Value NRead(Value v) {
    String t = ((StringValue) v).val.toString().stripLeading();
    java.util.regex.Matcher m = java.util.regex.Pattern.compile("[+-]?[0-9]*(\\.[0-9]*)?").matcher(t);
    m.lookingAt();
    String g = m.group();
    if (!g.matches(".*[0-9].*")) return s(0);
    java.util.regex.Matcher e = java.util.regex.Pattern.compile("[eE][+-]?[0-9]*").matcher(t.substring(g.length()));
    if (e.lookingAt()) g = e.group().matches(".*[0-9]") ? g + e.group() : "0";
    return s(Double.parseDouble(g));
  }
  public static Value NReadInt(Value v) {
    String t = ((StringValue) v).val.toString().stripLeading();
    java.util.regex.Matcher m = java.util.regex.Pattern.compile("[+-]?[0-9]+").matcher(t);
    if (!m.lookingAt()) return s(0);
    return s(Math.max(-2147483648.0, Math.min(2147483647.0, Double.parseDouble(m.group()))));
  }
  // The elements of a set as a sequence, in TLC's own order.
  public static Value SetSeq(Value v) {
    SetEnumValue e = (SetEnumValue) v.toSetEnum();
    e.normalize();
    Value[] r = new Value[e.elems.size()];
    for (int i = 0; i < r.length; i++) r[i] = e.elems.elementAt(i);
    return new TupleValue(r);
  }
  // <<<<k1, w1>>, <<k2, w2>>, ...>> as the sequence of the total weights of the distinct keys.
  public static Value Tally(Value v) {
    Value[] e = seq(v);
    java.util.HashMap<String, Integer> at = new java.util.HashMap<>();
    double[] tot = new double[e.length];
    int n = 0;
    for (Value x : e) {
      Value[] p = seq(x);
      String k = p[0].toString();
      Integer j = at.get(k);
      if (j == null) at.put(k, j = n++);
      tot[j] += d(p[1]);
    }
    Value[] r = new Value[n];
    for (int i = 0; i < n; i++) r[i] = s(tot[i]);
    return new TupleValue(r);
  }
  // The concatenation of a sequence of sequences.
  public static Value Flatten(Value v) {
    java.util.ArrayList<Value> r = new java.util.ArrayList<>();
    for (Value x : seq(v)) for (Value y : seq(x)) r.add(y);
    return new TupleValue(r.toArray(new Value[0]));
  }
  // <<<<k1, v1>>, <<k2, v2>>, ...>> as the function k1 :> v1 @@ k2 :> v2 ...
  public static Value PairsFcn(Value v) {
    Value[] e = seq(v);
    java.util.LinkedHashMap<Value, Value> m = new java.util.LinkedHashMap<>();
    java.util.ArrayList<Value> ks = new java.util.ArrayList<>();
    Value[] dom = new Value[e.length], val = new Value[e.length];
    for (int i = 0; i < e.length; i++) {
      Value[] p = seq(e[i]);
      dom[i] = p[0];
      val[i] = p[1];
    }
    for (int i = 0; i < dom.length; i++)
      for (int j = 0; j < i; j++)
        if (dom[i].equals(dom[j])) throw new RuntimeException("PairsFcn: duplicate key " + dom[i]);
    return new FcnRcdValue(dom, val, false).normalize();
  }
}
