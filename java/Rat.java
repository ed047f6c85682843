// TLC module override for spec/Rat.tla: exact rational arithmetic on
// arbitrary-precision numbers denoted by strings (TLC's own integers are 32-bit).
// The definitions overridden are the ones in Rat.tla; spec/RatSelfTest.tla
// has TLC compare them with TLC's own integer arithmetic.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.HashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
  static final class Q {
    final BigInteger n, d;   // d = 0: not a number (nan, inf, or the result of dividing by 0)
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) { this.n = BigInteger.ZERO; this.d = BigInteger.ZERO; return; }
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
    Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
    boolean bad() { return d.signum() == 0; }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    Q neg() { return bad() ? this : new Q(n.negate(), d); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    BigInteger floor() {
      if (bad()) throw new RuntimeException("Rat: not a number");
      BigInteger[] qr = n.divideAndRemainder(d);
      return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    public String toString() { return bad() ? "nan" : d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
  }
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
  static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);
  static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);

  static Q parse(String s) {
    if (s.endsWith("nan") || s.endsWith("inf")) return NAN;
    int sl = s.indexOf('/');
    if (sl >= 0) return new Q(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
    if (s.indexOf('x') >= 0) {
      double v = Double.parseDouble(s);
      return ofDouble(v);
    }
    if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) {
      BigDecimal b = new BigDecimal(s);
      BigInteger u = b.unscaledValue();
      int sc = b.scale();
      return sc >= 0 ? new Q(u, BigInteger.TEN.pow(sc)) : new Q(u.multiply(BigInteger.TEN.pow(-sc)), BigInteger.ONE);
    }
    return new Q(new BigInteger(s), BigInteger.ONE);
  }
  static Q ofDouble(double v) {
    if (Double.isNaN(v) || Double.isInfinite(v)) throw new RuntimeException("Rat: not finite: " + v);
    if (v == 0) return ZERO;
    long bits = Double.doubleToLongBits(v);
    int e = (int) ((bits >> 52) & 0x7ff);
    long m = bits & 0xfffffffffffffL;
    if (e == 0) e++; else m |= 1L << 52;
    e -= 1075;
    BigInteger n = BigInteger.valueOf(bits < 0 ? -m : m);
    return e >= 0 ? new Q(n.shiftLeft(e), BigInteger.ONE) : new Q(n, BigInteger.ONE.shiftLeft(-e));
  }
  static Q q(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      Q x = cache.get(u);
      if (x == null) {
        x = parse(u.toString());
        keep(u, x);
      }
      return x;
    }
    throw new RuntimeException("Rat: not a number: " + v);
  }
  static Value s(Q x) {
    StringValue v = new StringValue(x.toString());
    keep(v.val, x);
    return v;
  }
  // parsed denotations (strings are interned, so this only saves parsing)
  static final java.util.concurrent.ConcurrentHashMap<UniqueString, Q> cache = new java.util.concurrent.ConcurrentHashMap<>();
  static final java.util.concurrent.atomic.AtomicInteger kept = new java.util.concurrent.atomic.AtomicInteger();
  static void keep(UniqueString u, Q x) {
    if (kept.incrementAndGet() > 300000) { cache.clear(); kept.set(0); }
    cache.put(u, x);
  }
  static Value s(BigInteger x) { return new StringValue(x.toString()); }
  static BigInteger z(Value v) {
    Q x = q(v);
    if (!x.d.equals(BigInteger.ONE)) throw new RuntimeException("Rat: not an integer: " + x);
    return x.n;
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RIsNum(Value a) {
    if (a instanceof IntValue) return b(true);
    if (!(a instanceof StringValue)) return b(false);
    String t = ((StringValue) a).val.toString();
    if (t.length() == 0) return b(false);
    char c = t.charAt(t.length() > 1 && t.charAt(0) == '-' ? 1 : 0);
    return b(c >= '0' && c <= '9');
  }
  public static Value RNum(Value a) { return s(q(a).n); }
  public static Value RDen(Value a) { return s(q(a).d); }
  public static Value RCanon(Value a) { return s(q(a)); }
  public static Value RAdd(Value a, Value c) { return s(q(a).add(q(c))); }
  public static Value RSub(Value a, Value c) { return s(q(a).sub(q(c))); }
  public static Value RMul(Value a, Value c) { return s(q(a).mul(q(c))); }
  public static Value RDiv(Value a, Value c) { return s(q(a).div(q(c))); }
  public static Value RNeg(Value a) { return s(q(a).neg()); }
  public static Value RAbs(Value a) { return s(q(a).abs()); }
  public static Value RLe(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.bad() && !y.bad() && x.cmp(y) <= 0); }
  public static Value RLt(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.bad() && !y.bad() && x.cmp(y) < 0); }
  public static Value REq(Value a, Value c) { Q x = q(a), y = q(c); return b(!x.bad() && !y.bad() && x.cmp(y) == 0); }
  public static Value RSign(Value a) { return IntValue.gen(q(a).n.signum()); }
  public static Value RFloor(Value a) { Q x = q(a); return x.bad() ? s(NAN) : s(x.floor()); }
  public static Value RPow(Value a, Value k) {
    Q x = q(a);
    int n = ((IntValue) k).val;
    if (n < 0) return s(new Q(x.d.pow(-n), x.n.pow(-n)));
    return s(new Q(x.n.pow(n), x.d.pow(n)));
  }
  public static Value R2Pow(Value k) {
    int n = ((IntValue) k).val;
    return n >= 0 ? s(BigInteger.ONE.shiftLeft(n)) : s(new Q(BigInteger.ONE, BigInteger.ONE.shiftLeft(-n)));
  }
  public static Value RToInt(Value a) { return IntValue.gen(z(a).intValueExact()); }
  // largest multiple of 2^-k not above a / smallest not below a
  public static Value RDown(Value a, Value k) {
    int n = ((IntValue) k).val;
    Q x = q(a);
    if (x.bad()) return s(NAN);
    if (n < 0) return s(new Q(new Q(x.n, x.d.shiftLeft(-n)).floor().shiftLeft(-n), BigInteger.ONE));
    return s(new Q(new Q(x.n.shiftLeft(n), x.d).floor(), BigInteger.ONE.shiftLeft(n)));
  }
  public static Value RUp(Value a, Value k) {
    int n = ((IntValue) k).val;
    Q x = q(a);
    if (x.bad()) return s(NAN);
    if (n < 0) return s(new Q(new Q(x.n.negate(), x.d.shiftLeft(-n)).floor().negate().shiftLeft(-n), BigInteger.ONE));
    return s(new Q(new Q(x.n.shiftLeft(n).negate(), x.d).floor().negate(), BigInteger.ONE.shiftLeft(n)));
  }
  static Value[] elems(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return t.elems;
  }
  public static Value RSum(Value v) {
    Value[] e = elems(v);
    Q r = ZERO;
    for (Value x : e) r = r.add(q(x));
    return s(r);
  }
  public static Value RProd(Value v) {
    Value[] e = elems(v);
    Q r = ONE;
    for (Value x : e) r = r.mul(q(x));
    return s(r);
  }
  public static Value RSumAbs(Value v) {
    Value[] e = elems(v);
    Q r = ZERO;
    for (Value x : e) r = r.add(q(x).abs());
    return s(r);
  }
  public static Value RMaxAbs(Value v) {
    Value[] e = elems(v);
    Q r = ZERO;
    for (Value x : e) { Q y = q(x).abs(); if (y.bad()) { r = NAN; break; } if (y.cmp(r) > 0) r = y; }
    return s(r);
  }
  public static Value RDot(Value u, Value v) {
    Value[] a = elems(u), c = elems(v);
    Q r = ZERO;
    for (int i = 0; i < a.length; i++) r = r.add(q(a[i]).mul(q(c[i])));
    return s(r);
  }
  public static Value RDotAbs(Value u, Value v) {
    Value[] a = elems(u), c = elems(v);
    Q r = ZERO;
    for (int i = 0; i < a.length; i++) r = r.add(q(a[i]).mul(q(c[i])).abs());
    return s(r);
  }
  // floor(log2 |a|), a # 0
  public static Value RExp2(Value a) {
    Q x = q(a).abs();
    if (x.bad() || x.n.signum() == 0) throw new RuntimeException("RExp2: " + x);
    int k = x.n.bitLength() - x.d.bitLength();      // 2^(k-1) < x < 2^(k+1)
    Q p = k >= 0 ? new Q(BigInteger.ONE.shiftLeft(k), BigInteger.ONE) : new Q(BigInteger.ONE, BigInteger.ONE.shiftLeft(-k));
    return IntValue.gen(x.cmp(p) >= 0 ? k : k - 1);
  }
  // c[1] + c[2] x + c[3] x^2 + ...
  public static Value RPoly(Value c, Value x) {
    Value[] e = elems(c);
    Q r = ZERO, y = q(x);
    for (int i = e.length - 1; i >= 0; i--) r = q(e[i]).add(y.mul(r));
    return s(r);
  }
  // the same, rounded down to a multiple of 2^-k after every step
  public static Value RHorner(Value c, Value x, Value k) {
    Value[] e = elems(c);
    Q r = ZERO, y = q(x);
    int n = ((IntValue) k).val;
    for (int i = e.length - 1; i >= 0; i--) {
      Q t = q(e[i]).add(y.mul(r));
      if (t.bad()) return s(NAN);
      r = new Q(new Q(t.n.shiftLeft(n), t.d).floor(), BigInteger.ONE.shiftLeft(n));
    }
    return s(r);
  }
  // integers
  // the same value with every function and tuple inside it evaluated
  public static Value Eager(Value v) {
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      Value[] e = new Value[r.values.length];
      for (int i = 0; i < e.length; ++i) e[i] = Eager(r.values[i]);
      return new RecordValue(r.names, e, r.isNormalized());
    }
    if (v instanceof FcnLambdaValue || v instanceof TupleValue || v instanceof FcnRcdValue) {
      Value t = v.toTuple();
      if (t != null) {
        Value[] a = ((TupleValue) t).elems, e = new Value[a.length];
        for (int i = 0; i < e.length; ++i) e[i] = Eager(a[i]);
        return new TupleValue(e);
      }
      if (v instanceof FcnLambdaValue) { Value f = v.toFcnRcd(); if (f != null) return f; }
    }
    return v;
  }
  public static Value ZDiv(Value a, Value c) { return s(new Q(z(a), z(c)).floor()); }
  public static Value ZMod(Value a, Value c) { return s(z(a).mod(z(c))); }
  public static Value ZAnd(Value a, Value c) { return s(z(a).and(z(c))); }
  public static Value ZOr(Value a, Value c) { return s(z(a).or(z(c))); }
  public static Value ZXor(Value a, Value c) { return s(z(a).xor(z(c))); }
  public static Value ZShl(Value a, Value k) { return s(z(a).shiftLeft(((IntValue) k).val)); }
  public static Value ZShr(Value a, Value k) { return s(z(a).shiftRight(((IntValue) k).val)); }
  public static Value ZSqrt(Value a) { return s(z(a).sqrt()); }

  // Emit(file, seq): append the tokens of seq as one line of file; TRUE.
  static final HashMap<String, java.io.PrintWriter> out = new HashMap<>();
  public static synchronized Value Emit(Value file, Value seq) {
    String f = ((StringValue) file).val.toString();
    try {
      java.io.PrintWriter w = out.get(f);
      if (w == null) {
        w = new java.io.PrintWriter(new java.io.BufferedWriter(new java.io.FileWriter(f, true)));
        out.put(f, w);
        final java.io.PrintWriter ww = w;
        Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (Rat.class) { ww.flush(); } }));
      }
      StringBuilder sb = new StringBuilder();
      for (Value x : elems(seq)) {
        if (sb.length() > 0) sb.append(' ');
        if (x instanceof StringValue) sb.append(((StringValue) x).val.toString());
        else sb.append(x.toString());
      }
      w.println(sb);
    } catch (java.io.IOException e) { throw new RuntimeException(e); }
    return BoolValue.ValTrue;
  }
}
