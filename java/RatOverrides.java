import java.math.BigInteger;
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * The arithmetic of module Rat: exact rational numbers written as strings ("3", "-7/4") and the
 * IEEE specials "nan", "inf", "-inf".  Only number arithmetic lives here; everything about curves is
 * written in TLA+.
 */
public class RatOverrides implements ITLCOverrides {

  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] { RatOverrides.class };
  }

  // ------------------------------------------------------------------ representation

  static final int FIN = 0, NAN = 1, PINF = 2, NINF = 3;
  static final int PREC = 320;                       // bits kept by RRnd / RSqrt / ...

  static final class Rat {
    final int kind;
    final BigInteger n, d;
    StringValue sv;                                  // cached printed form
    Rat(int kind) { this.kind = kind; this.n = BigInteger.ZERO; this.d = BigInteger.ONE; }
    Rat(BigInteger n, BigInteger d) { this.kind = FIN; this.n = n; this.d = d; }
  }

  static final Rat ZERO = new Rat(BigInteger.ZERO, BigInteger.ONE);
  static final Rat ONE = new Rat(BigInteger.ONE, BigInteger.ONE);
  static final Rat RNAN = new Rat(NAN), RPINF = new Rat(PINF), RNINF = new Rat(NINF);

  static Rat mk(BigInteger n, BigInteger d) {
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (n.signum() == 0) return ZERO;
    if (d.equals(BigInteger.ONE)) return new Rat(n, d);
    int s = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
    if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
    if (d.bitLength() - 1 == d.getLowestSetBit()) return new Rat(n, d);   // power of two, n odd or d = 1
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new Rat(n, d);
  }

  static final int CACHE = 1 << 14;
  static final class Entry { Object key; Rat val; }
  static final ThreadLocal<Object[][]> TL = ThreadLocal.withInitial(() -> new Object[2][CACHE]);

  static Rat parse(StringValue sv) {
    Object key = sv.val;                              // UniqueString: identity comparable
    Object[][] c = TL.get();
    int h = (key.hashCode() * 0x9E3779B1) >>> (32 - 14);
    if (c[0][h] == key) return (Rat) c[1][h];
    Rat r = parse(sv.val.toString());
    r.sv = sv;
    c[0][h] = key;
    c[1][h] = r;
    return r;
  }

  static Rat parse(String s) {
    switch (s) {
      case "nan": return new Rat(NAN);
      case "inf": return new Rat(PINF);
      case "-inf": return new Rat(NINF);
      default:
    }
    int k = s.indexOf('/');
    if (k < 0) return new Rat(new BigInteger(s), BigInteger.ONE);
    return mk(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
  }

  static String str(Rat r) {
    switch (r.kind) {
      case NAN: return "nan";
      case PINF: return "inf";
      case NINF: return "-inf";
      default:
    }
    if (r.d.equals(BigInteger.ONE)) return r.n.toString();
    return r.n.toString() + "/" + r.d.toString();
  }

  static StringValue val(Rat r) {
    if (r.sv != null) return r.sv;
    StringValue sv = new StringValue(str(r));
    r.sv = sv;
    Object key = sv.val;
    Object[][] c = TL.get();
    int h = (key.hashCode() * 0x9E3779B1) >>> (32 - 14);
    c[0][h] = key;
    c[1][h] = r;
    return sv;
  }

  static Rat arg(Value v) { return parse((StringValue) v); }

  // ------------------------------------------------------------------ arithmetic

  static int sgn(Rat a) {
    switch (a.kind) {
      case PINF: return 1;
      case NINF: return -1;
      default: return a.n.signum();
    }
  }

  static Rat neg(Rat a) {
    switch (a.kind) {
      case NAN: return RNAN;
      case PINF: return RNINF;
      case NINF: return RPINF;
      default: return new Rat(a.n.negate(), a.d);
    }
  }

  static Rat add(Rat a, Rat b) {
    if (a.kind != FIN || b.kind != FIN) {
      if (a.kind == NAN || b.kind == NAN) return RNAN;
      if (a.kind == FIN) return b;
      if (b.kind == FIN) return a;
      return a.kind == b.kind ? a : RNAN;
    }
    if (a.n.signum() == 0) return b;
    if (b.n.signum() == 0) return a;
    if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
    return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }

  static Rat sub(Rat a, Rat b) { return add(a, neg(b)); }

  static Rat mul(Rat a, Rat b) {
    if (a.kind != FIN || b.kind != FIN) {
      if (a.kind == NAN || b.kind == NAN) return RNAN;
      int s = sgn(a) * sgn(b);
      return s == 0 ? RNAN : s > 0 ? RPINF : RNINF;
    }
    return mk(a.n.multiply(b.n), a.d.multiply(b.d));
  }

  /** IEEE-like: x/0 is nan or an infinity (the sign of zero is not represented). */
  static Rat div(Rat a, Rat b) {
    if (a.kind == NAN || b.kind == NAN) return RNAN;
    if (b.kind != FIN) return a.kind == FIN ? ZERO : RNAN;
    if (b.n.signum() == 0) return sgn(a) == 0 ? RNAN : sgn(a) > 0 ? RPINF : RNINF;
    if (a.kind != FIN) return sgn(a) * sgn(b) > 0 ? RPINF : RNINF;
    return mk(a.n.multiply(b.d), a.d.multiply(b.n));
  }

  /** -1, 0, 1; 2 if one of the numbers is nan */
  static int cmp(Rat a, Rat b) {
    if (a.kind == NAN || b.kind == NAN) return 2;
    if (a.kind != FIN || b.kind != FIN) {
      int x = a.kind == FIN ? 0 : sgn(a), y = b.kind == FIN ? 0 : sgn(b);
      return Integer.compare(x, y);
    }
    if (a.d.equals(b.d)) return a.n.compareTo(b.n);
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }

  static BigInteger floor(Rat a) {
    BigInteger[] qr = a.n.divideAndRemainder(a.d);
    return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }

  static BigInteger roundEven(Rat a) {
    BigInteger f = floor(a);
    Rat frac = sub(a, new Rat(f, BigInteger.ONE));
    int c = cmp(frac, mk(BigInteger.ONE, BigInteger.TWO));
    if (c > 0 || (c == 0 && f.testBit(0))) f = f.add(BigInteger.ONE);
    return f;
  }

  /** Rounds to a binary number with `bits` significant bits (half to even). */
  static Rat rnd(Rat a, int bits) {
    if (a.kind != FIN || a.n.signum() == 0) return a;
    if (a.n.bitLength() <= bits && a.d.bitLength() <= bits) return a;
    int e = a.n.abs().bitLength() - a.d.bitLength() - bits;     // scale so that the quotient has ~bits bits
    for (;;) {
      Rat s = e >= 0 ? mk(a.n, a.d.shiftLeft(e)) : mk(a.n.shiftLeft(-e), a.d);
      BigInteger q = roundEven(s);
      int over = q.abs().bitLength() - bits;
      if (over > 1 || (over == 1 && q.abs().bitCount() != 1)) { e += 1; continue; }
      return e >= 0 ? new Rat(q.shiftLeft(e), BigInteger.ONE) : mk(q, BigInteger.ONE.shiftLeft(-e));
    }
  }

  static Rat sqrt(Rat a) {
    if (a.kind == NAN || a.kind == NINF) return RNAN;
    if (a.kind == PINF) return a;
    if (a.n.signum() < 0) return RNAN;
    if (a.n.signum() == 0) return ZERO;
    // exact squares stay exact
    BigInteger sn = a.n.sqrt(), sd = a.d.sqrt();
    if (sn.multiply(sn).equals(a.n) && sd.multiply(sd).equals(a.d)) return mk(sn, sd);
    int e = 2 * PREC - (a.n.bitLength() - a.d.bitLength());
    if ((e & 1) != 0) e++;
    BigInteger q = e >= 0 ? a.n.shiftLeft(e).divide(a.d) : a.n.divide(a.d.shiftLeft(-e));
    BigInteger r = q.sqrt();
    return e >= 0 ? mk(r, BigInteger.ONE.shiftLeft(e / 2)) : new Rat(r.shiftLeft(-e / 2), BigInteger.ONE);
  }

  // ------------------------------------------------------------------ elementary functions (fixed point)

  static final int FP = 400;

  static BigInteger fx(Rat a, int bits) { return floor(mk(a.n.shiftLeft(bits), a.d)); }

  static BigInteger PI_CACHE;

  static synchronized BigInteger pi() {               // Machin, FP bits
    if (PI_CACHE != null) return PI_CACHE;
    int b = FP + 32;
    BigInteger p = atanInv(5, b).multiply(BigInteger.valueOf(16)).subtract(atanInv(239, b).multiply(BigInteger.valueOf(4)));
    PI_CACHE = p.shiftRight(32);
    return PI_CACHE;
  }

  static BigInteger atanInv(int x, int b) {
    BigInteger term = BigInteger.ONE.shiftLeft(b).divide(BigInteger.valueOf(x)), sum = term;
    BigInteger x2 = BigInteger.valueOf((long) x * x);
    for (int k = 3; term.signum() != 0; k += 2) {
      term = term.divide(x2);
      BigInteger t = term.divide(BigInteger.valueOf(k));
      sum = ((k / 2) & 1) == 1 ? sum.subtract(t) : sum.add(t);
    }
    return sum;
  }

  static Rat fromFx(BigInteger v, int bits) { return mk(v, BigInteger.ONE.shiftLeft(bits)); }

  static Rat sincos(Rat a, boolean sin) {
    if (a.kind != FIN) return RNAN;
    BigInteger twoPi = pi().shiftLeft(1);
    BigInteger x = fx(a, FP).mod(twoPi);
    // Taylor with x reduced by 2^-8 would need doubling; the plain series converges for |x| < 2 pi
    BigInteger x2 = x.multiply(x).shiftRight(FP);
    BigInteger term = sin ? x : BigInteger.ONE.shiftLeft(FP), sum = term;
    for (int k = sin ? 2 : 1; term.signum() != 0; k += 2) {
      term = term.multiply(x2).shiftRight(FP).divide(BigInteger.valueOf((long) k * (k + 1))).negate();
      sum = sum.add(term);
      if (term.bitLength() <= 1) break;
    }
    return rnd(fromFx(sum, FP), PREC);
  }

  /** Fresnel integrals S and C (normalised with pi/2), by their power series. */
  static Rat fresnel(Rat a, boolean s) {
    if (a.kind != FIN) return RNAN;
    BigInteger x = fx(a, FP);
    BigInteger x2 = x.multiply(x).shiftRight(FP);
    BigInteger h = pi().shiftRight(1).multiply(x2).shiftRight(FP);       // pi/2 x^2
    BigInteger h2 = h.multiply(h).shiftRight(FP);
    // C: sum (-1)^n h^(2n) x /((2n)!(4n+1)) ; S: sum (-1)^n h^(2n+1) x /((2n+1)!(4n+3))
    BigInteger term = s ? h.multiply(x).shiftRight(FP) : x;
    BigInteger sum = BigInteger.ZERO;
    for (int n = 0; term.signum() != 0 && n < 4000; n++) {
      BigInteger t = term.divide(BigInteger.valueOf(s ? 4L * n + 3 : 4L * n + 1));
      sum = sum.add(t);
      long k = s ? 2L * n + 2 : 2L * n + 1;
      term = term.multiply(h2).shiftRight(FP).divide(BigInteger.valueOf(k * (k + 1))).negate();
      if (term.bitLength() <= 1) break;
    }
    return rnd(fromFx(sum, FP), PREC);
  }

  /** natural logarithm (x > 0) by atanh series after scaling to [1, 2) */
  static Rat ln(Rat a) {
    if (a.kind == NAN || sgn(a) < 0) return RNAN;
    if (a.kind == PINF) return a;
    if (a.n.signum() == 0) return RNINF;
    int e = a.n.bitLength() - a.d.bitLength();
    Rat m = e >= 0 ? mk(a.n, a.d.shiftLeft(e)) : mk(a.n.shiftLeft(-e), a.d);
    return rnd(add(atanhLn(m), mul(mk(BigInteger.valueOf(e), BigInteger.ONE),
        atanhLn(mk(BigInteger.TWO, BigInteger.ONE)))), PREC);
  }

  /** exponential, for arguments of moderate size */
  static Rat exp(Rat a) {
    if (a.kind != FIN) return RNAN;
    BigInteger x = fx(sgn(a) < 0 ? neg(a) : a, FP), term = BigInteger.ONE.shiftLeft(FP), sum = term;
    for (int k = 1; term.signum() != 0 && k < 20000; k++) {
      term = term.multiply(x).shiftRight(FP).divide(BigInteger.valueOf(k));
      sum = sum.add(term);
    }
    Rat r = fromFx(sum, FP);
    return rnd(sgn(a) < 0 ? div(ONE, r) : r, PREC);
  }

  static Rat atanhLn(Rat m) {                         // ln m = 2 atanh((m-1)/(m+1))
    Rat z = div(sub(m, ONE), add(m, ONE));
    BigInteger x = fx(z, FP), x2 = x.multiply(x).shiftRight(FP), term = x, sum = BigInteger.ZERO;
    for (int k = 1; term.signum() != 0 && k < 4000; k += 2) {
      sum = sum.add(term.divide(BigInteger.valueOf(k)));
      term = term.multiply(x2).shiftRight(FP);
      if (term.bitLength() <= 1) break;
    }
    return fromFx(sum.shiftLeft(1), FP);
  }

  // ------------------------------------------------------------------ machine types

  /** The value stored when the number is converted to the dtype (C truncation, IEEE rounding). */
  static Rat cast(Rat a, String dt) {
    switch (dt) {
      case "float64": case "double": return toFloat(a, 53, -1074, 1024);
      case "float32": return toFloat(a, 24, -149, 128);
      case "float16": return toFloat(a, 11, -24, 16);
      default:
    }
    if (a.kind != FIN) return RNAN;                   // undefined behaviour: never generated
    return new Rat(a.n.divide(a.d), BigInteger.ONE);  // truncation toward zero
  }

  static Rat toFloat(Rat a, int mant, int emin, int emax) {
    if (a.kind != FIN || a.n.signum() == 0) return a;
    int top = a.n.abs().bitLength() - a.d.bitLength();    // 2^(top-1) < |a| < 2^(top+1)
    Rat abs = new Rat(a.n.abs(), a.d);
    Rat p = top >= 0 ? new Rat(BigInteger.ONE.shiftLeft(top), BigInteger.ONE)
                     : new Rat(BigInteger.ONE, BigInteger.ONE.shiftLeft(-top));
    int ex = cmp(abs, p) >= 0 ? top : top - 1;            // 2^ex <= |a| < 2^(ex+1)
    int q = Math.max(ex - mant + 1, emin);
    Rat s = q >= 0 ? mk(a.n, a.d.shiftLeft(q)) : mk(a.n.shiftLeft(-q), a.d);
    BigInteger r = roundEven(s);
    if (r.signum() == 0) return ZERO;
    Rat out = q >= 0 ? new Rat(r.shiftLeft(q), BigInteger.ONE) : mk(r, BigInteger.ONE.shiftLeft(-q));
    Rat lim = new Rat(BigInteger.ONE.shiftLeft(emax), BigInteger.ONE);
    if (cmp(new Rat(out.n.abs(), out.d), lim) >= 0) return out.n.signum() > 0 ? RPINF : RNINF;
    return out;
  }

  // ------------------------------------------------------------------ operators

  @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
  public static Value RAdd(final Value a, final Value b) { return val(add(arg(a), arg(b))); }

  @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
  public static Value RSub(final Value a, final Value b) { return val(sub(arg(a), arg(b))); }

  @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
  public static Value RMul(final Value a, final Value b) { return val(mul(arg(a), arg(b))); }

  @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
  public static Value RDiv(final Value a, final Value b) { return val(div(arg(a), arg(b))); }

  @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
  public static Value RNeg(final Value a) { return val(neg(arg(a))); }

  @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
  public static Value RAbs(final Value a) { Rat r = arg(a); return sgn(r) < 0 ? val(neg(r)) : a; }

  @TLAPlusOperator(identifier = "RCmp", module = "Rat", warn = false)
  public static Value RCmp(final Value a, final Value b) { return IntValue.gen(cmp(arg(a), arg(b))); }

  @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
  public static Value RLt(final Value a, final Value b) { return bool(cmp(arg(a), arg(b)) == -1); }

  @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
  public static Value RLe(final Value a, final Value b) { int c = cmp(arg(a), arg(b)); return bool(c == -1 || c == 0); }

  @TLAPlusOperator(identifier = "RIsNan", module = "Rat", warn = false)
  public static Value RIsNan(final Value a) { return bool(arg(a).kind == NAN); }

  @TLAPlusOperator(identifier = "RIsFin", module = "Rat", warn = false)
  public static Value RIsFin(final Value a) { return bool(arg(a).kind == FIN); }

  @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
  public static Value RInt(final Value i) { return val(new Rat(BigInteger.valueOf(((IntValue) i).val), BigInteger.ONE)); }

  @TLAPlusOperator(identifier = "RToInt", module = "Rat", warn = false)
  public static Value RToInt(final Value a) { return IntValue.gen(floor(arg(a)).intValueExact()); }

  @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
  public static Value RFloor(final Value a) {
    Rat r = arg(a);
    return r.kind == FIN ? val(new Rat(floor(r), BigInteger.ONE)) : a;
  }

  @TLAPlusOperator(identifier = "RRoundEven", module = "Rat", warn = false)
  public static Value RRoundEven(final Value a) {
    Rat r = arg(a);
    return r.kind == FIN ? val(new Rat(roundEven(r), BigInteger.ONE)) : a;
  }

  @TLAPlusOperator(identifier = "RRnd", module = "Rat", warn = false)
  public static Value RRnd(final Value a) { return val(rnd(arg(a), PREC)); }

  @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
  public static Value RSqrt(final Value a) { return val(sqrt(arg(a))); }

  @TLAPlusOperator(identifier = "RSin", module = "Rat", warn = false)
  public static Value RSin(final Value a) { return val(sincos(arg(a), true)); }

  @TLAPlusOperator(identifier = "RCos", module = "Rat", warn = false)
  public static Value RCos(final Value a) { return val(sincos(arg(a), false)); }

  @TLAPlusOperator(identifier = "RLn", module = "Rat", warn = false)
  public static Value RLn(final Value a) { return val(ln(arg(a))); }

  @TLAPlusOperator(identifier = "RExp", module = "Rat", warn = false)
  public static Value RExp(final Value a) { return val(exp(arg(a))); }

  @TLAPlusOperator(identifier = "RPi", module = "Rat", warn = false)
  public static Value RPi() { return val(rnd(fromFx(pi(), FP), PREC)); }

  @TLAPlusOperator(identifier = "RFresnelS", module = "Rat", warn = false)
  public static Value RFresnelS(final Value a) { return val(fresnel(arg(a), true)); }

  @TLAPlusOperator(identifier = "RFresnelC", module = "Rat", warn = false)
  public static Value RFresnelC(final Value a) { return val(fresnel(arg(a), false)); }

  @TLAPlusOperator(identifier = "RCast", module = "Rat", warn = false)
  public static Value RCast(final Value a, final Value dt) {
    return val(cast(arg(a), ((StringValue) dt).val.toString()));
  }

  @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
  public static Value RShow(final Value a) {
    Rat r = arg(a);
    if (r.kind != FIN) return a;
    return new StringValue(new BigDecimal(r.n).divide(new BigDecimal(r.d), new MathContext(17, RoundingMode.HALF_EVEN)).toString());
  }

  // vectors: these have definitions in TLA+ as well (module Rat), the overrides only make them fast

  static Rat[] vec(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    Rat[] out = new Rat[e.length];
    for (int i = 0; i < e.length; i++) out[i] = parse((StringValue) e[i]);
    return out;
  }

  static Value tup(Rat[] r) {
    Value[] e = new Value[r.length];
    for (int i = 0; i < r.length; i++) e[i] = val(r[i]);
    return new TupleValue(e);
  }

  // the solution X of A X = B for a regular matrix A (rows), to more than 700 bits
  static Rat[][] mat(Value v) {
    TupleValue m = (TupleValue) v.toTuple();
    Rat[][] r = new Rat[m.elems.length][];
    for (int i = 0; i < r.length; i++) {
      TupleValue row = (TupleValue) m.elems[i].toTuple();
      r[i] = new Rat[row.elems.length];
      for (int j = 0; j < r[i].length; j++) r[i][j] = arg(row.elems[j]);
    }
    return r;
  }

  @TLAPlusOperator(identifier = "RSolve", module = "Rat", warn = false)
  public static Value rsolve(Value av, Value bv) {
    Rat[][] a = mat(av), b = mat(bv);
    int n = a.length, m = n == 0 ? 0 : b[0].length;
    for (int k = 0; k < n; k++) {
      int p = -1;
      Rat best = ZERO;
      for (int i = k; i < n; i++) {
        Rat x = a[i][k].n.signum() < 0 ? neg(a[i][k]) : a[i][k];
        if (x.n.signum() != 0 && (p < 0 || cmp(x, best) > 0)) { p = i; best = x; }
      }
      if (p < 0) throw new RuntimeException("RSolve: singular matrix");
      Rat[] s = a[p]; a[p] = a[k]; a[k] = s;
      s = b[p]; b[p] = b[k]; b[k] = s;
      for (int i = 0; i < n; i++) {
        if (i == k || a[i][k].n.signum() == 0) continue;
        Rat f = rnd(div(a[i][k], a[k][k]), 1000);
        a[i][k] = ZERO;
        for (int j = k + 1; j < n; j++)
          if (a[k][j].n.signum() != 0) a[i][j] = rnd(add(a[i][j], neg(mul(f, a[k][j]))), 1000);
        for (int j = 0; j < m; j++)
          if (b[k][j].n.signum() != 0) b[i][j] = rnd(add(b[i][j], neg(mul(f, b[k][j]))), 1000);
      }
    }
    Value[] rows = new Value[n];
    for (int i = 0; i < n; i++) {
      Value[] row = new Value[m];
      for (int j = 0; j < m; j++) row[j] = val(rnd(div(b[i][j], a[i][i]), PREC));
      rows[i] = new TupleValue(row);
    }
    return new TupleValue(rows);
  }

  @TLAPlusOperator(identifier = "VDot", module = "Rat", warn = false)
  public static Value VDot(final Value a, final Value b) {
    Rat[] x = vec(a), y = vec(b);
    Rat s = ZERO;
    for (int i = 0; i < x.length; i++) s = add(s, mul(x[i], y[i]));
    return val(s);
  }

  @TLAPlusOperator(identifier = "VAdd", module = "Rat", warn = false)
  public static Value VAdd(final Value a, final Value b) {
    Rat[] x = vec(a), y = vec(b), r = new Rat[x.length];
    for (int i = 0; i < x.length; i++) r[i] = add(x[i], y[i]);
    return tup(r);
  }

  @TLAPlusOperator(identifier = "VSub", module = "Rat", warn = false)
  public static Value VSub(final Value a, final Value b) {
    Rat[] x = vec(a), y = vec(b), r = new Rat[x.length];
    for (int i = 0; i < x.length; i++) r[i] = sub(x[i], y[i]);
    return tup(r);
  }

  @TLAPlusOperator(identifier = "VScale", module = "Rat", warn = false)
  public static Value VScale(final Value k, final Value a) {
    Rat[] x = vec(a), r = new Rat[x.length];
    Rat q = arg(k);
    for (int i = 0; i < x.length; i++) r[i] = mul(q, x[i]);
    return tup(r);
  }

  @TLAPlusOperator(identifier = "VRnd", module = "Rat", warn = false)
  public static Value VRnd(final Value a) {
    Rat[] x = vec(a), r = new Rat[x.length];
    for (int i = 0; i < x.length; i++) r[i] = rnd(x[i], PREC);
    return tup(r);
  }

  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
