import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * Exact rational arithmetic for TLC (module Rat).  A rational is the string
 * "p" or "p/q" in lowest terms with q > 1.  TLC's own integers have 32 bits,
 * far too few for stiffness matrices; nothing here rounds.
 */
public class RatOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] {RatOverrides.class}; }

    static final class Q {
        final BigInteger n, d;   // d > 0, gcd = 1
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);
    static final ConcurrentHashMap<UniqueString, Q> CACHE = new ConcurrentHashMap<>();

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
        if (n.signum() == 0) return ZERO;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a rational: " + v);
        UniqueString u = ((StringValue) v).val;
        Q r = CACHE.get(u);
        if (r == null) {
            r = parse(u.toString());
            if (CACHE.size() > 3000000) CACHE.clear();
            CACHE.put(u, r);
        }
        return r;
    }
    static Q parse(String s) {
        s = s.trim();
        int i = s.indexOf('/');
        if (i >= 0) return mk(new BigInteger(s.substring(0, i).trim()), new BigInteger(s.substring(i + 1).trim()));
        BigDecimal b = new BigDecimal(s);
        if (b.signum() == 0) return ZERO;
        if (Math.abs((long) b.scale()) > 2000) throw new NumberFormatException("Rat: exponent out of range " + s);
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), BigInteger.ONE);
        return mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }
    static Value v(Q r) {
        String s = r.d.equals(BigInteger.ONE) ? r.n.toString() : r.n.toString() + "/" + r.d.toString();
        UniqueString u = UniqueString.uniqueStringOf(s);
        return new StringValue(u);
    }
    static Q add(Q a, Q b) {
        if (a.n.signum() == 0) return b;
        if (b.n.signum() == 0) return a;
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q b) {
        if (a.n.signum() == 0 || b.n.signum() == 0) return ZERO;
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (b.n.signum() == 0) throw new RuntimeException("Rat: division by zero");
        return mk(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    static int cmp(Q a, Q b) {
        if (a.d.equals(b.d)) return a.n.compareTo(b.n);
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    static Value[] seq(Value s) {
        Value t = s.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value rAdd(Value a, Value b) { return v(add(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rSub(Value a, Value b) { return v(add(q(a), neg(q(b)))); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rMul(Value a, Value b) { return v(mul(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rDiv(Value a, Value b) { return v(div(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value rNeg(Value a) { return v(neg(q(a))); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value rAbs(Value a) { Q x = q(a); return v(x.n.signum() < 0 ? neg(x) : x); }
    @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
    public static Value rInt(Value a) { return v(q(a)); }
    @TLAPlusOperator(identifier = "RNorm", module = "Rat", warn = false)
    public static Value rNorm(Value a) { return v(q(a)); }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value rLe(Value a, Value b) { return b(cmp(q(a), q(b)) <= 0); }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value rLt(Value a, Value b) { return b(cmp(q(a), q(b)) < 0); }
    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value rEq(Value a, Value b) { return b(cmp(q(a), q(b)) == 0); }
    @TLAPlusOperator(identifier = "RSign", module = "Rat", warn = false)
    public static Value rSign(Value a) { return IntValue.gen(q(a).n.signum()); }
    @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
    public static Value rIsNum(Value a) {
        if (a instanceof IntValue) return BoolValue.ValTrue;
        if (!(a instanceof StringValue)) return BoolValue.ValFalse;
        try { q(a); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; }
    }
    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value rSum(Value s) {
        Q r = ZERO;
        for (Value x : seq(s)) r = add(r, q(x));
        return v(r);
    }
    @TLAPlusOperator(identifier = "RProd", module = "Rat", warn = false)
    public static Value rProd(Value s) {
        Q r = ONE;
        for (Value x : seq(s)) r = mul(r, q(x));
        return v(r);
    }
    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value rDot(Value s, Value t) {
        Value[] x = seq(s), y = seq(t);
        if (x.length != y.length) throw new RuntimeException("Rat: RDot lengths differ");
        Q r = ZERO;
        for (int i = 0; i < x.length; i++) r = add(r, mul(q(x[i]), q(y[i])));
        return v(r);
    }
    /** u^T M v for a matrix M given as a sequence of rows. */
    @TLAPlusOperator(identifier = "RQuad", module = "Rat", warn = false)
    public static Value rQuad(Value u, Value m, Value w) {
        Value[] x = seq(u), rows = seq(m), y = seq(w);
        if (x.length != rows.length) throw new RuntimeException("Rat: RQuad shape");
        Q r = ZERO;
        for (int i = 0; i < x.length; i++) {
            Q xi = q(x[i]);
            if (xi.n.signum() == 0) continue;
            Value[] row = seq(rows[i]);
            if (row.length != y.length) throw new RuntimeException("Rat: RQuad shape");
            Q acc = ZERO;
            for (int j = 0; j < y.length; j++) acc = add(acc, mul(q(row[j]), q(y[j])));
            r = add(r, mul(xi, acc));
        }
        return v(r);
    }
    /** |obs - exp| <= tol, FALSE when obs is not a number. */
    @TLAPlusOperator(identifier = "RNear", module = "Rat", warn = false)
    public static Value rNear(Value obs, Value exp, Value tol) {
        Q o;
        try { o = q(obs); } catch (RuntimeException e) { return BoolValue.ValFalse; }
        Q d = add(o, neg(q(exp)));
        if (d.n.signum() < 0) d = neg(d);
        return b(cmp(d, q(tol)) <= 0);
    }
    /** Decimal rendering for messages only. */
    @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
    public static Value rShow(Value a) {
        try {
            Q x = q(a);
            return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(12)).toString());
        } catch (RuntimeException e) { return new StringValue(String.valueOf(a)); }
    }
    /** Integer (as TLA+ Int) value of an integral rational that fits 31 bits. */
    @TLAPlusOperator(identifier = "RToInt", module = "Rat", warn = false)
    public static Value rToInt(Value a) { return IntValue.gen(q(a).n.intValueExact()); }
    /** a to the power n for an integer n, |n| <= 1000; "undef" for a negative power of zero, "big" for a huge result. */
    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value rPow(Value a, Value n) {
        Q x = q(a);
        int k = ((IntValue) n).val;
        if (k < 0 && x.n.signum() == 0) return new StringValue("undef");
        if (Math.abs(k) > 1000) throw new RuntimeException("Rat: RPow exponent");
        if ((long) Math.max(x.n.bitLength(), x.d.bitLength()) * Math.abs(k) > 16000) return new StringValue("big");
        Q r = new Q(x.n.pow(Math.abs(k)), x.d.pow(Math.abs(k)));
        return v(k < 0 ? div(ONE, r) : r);
    }
    @TLAPlusOperator(identifier = "RIsInt", module = "Rat", warn = false)
    public static Value rIsInt(Value a) { return b(q(a).d.equals(BigInteger.ONE)); }
    /** the square root of a, "undef" when it is not rational. */
    @TLAPlusOperator(identifier = "RRoot", module = "Rat", warn = false)
    public static Value rRoot(Value a) {
        Q x = q(a);
        if (x.n.signum() < 0) return new StringValue("undef");
        BigInteger p = x.n.sqrt(), r = x.d.sqrt();
        if (!p.multiply(p).equals(x.n) || !r.multiply(r).equals(x.d)) return new StringValue("undef");
        return v(new Q(p, r));
    }
}
