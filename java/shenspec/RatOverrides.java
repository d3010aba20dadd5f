package shenspec;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Exact rationals for TLC (module Rat).  TLC's integers have 32 bits, so a
 * rational is the string "n" or "n/d" in lowest terms with d > 1; string
 * equality is therefore equality of rationals.  Integers are accepted wherever
 * a rational is expected.
 */
public final class RatOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { RatOverrides.class }; }

    private static final class Q {
        final BigInteger n, d;
        Q(BigInteger a, BigInteger b) {
            if (b.signum() == 0) throw new ArithmeticException("Rat: division by zero");
            if (b.signum() < 0) { a = a.negate(); b = b.negate(); }
            BigInteger g = a.gcd(b);
            if (!g.equals(BigInteger.ONE)) { a = a.divide(g); b = b.divide(g); }
            n = a; d = b;
        }
        private Q(BigInteger a) { n = a; d = BigInteger.ONE; }
        boolean isInt() { return d.equals(BigInteger.ONE); }
    }
    private static final ConcurrentHashMap<String, Q> CACHE = new ConcurrentHashMap<>();

    private static Q parse(String s) {
        Q q = CACHE.get(s);
        if (q != null) return q;
        int i = s.indexOf('/');
        q = i < 0 ? new Q(new BigInteger(s)) : new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        if (CACHE.size() > 2000000) CACHE.clear();
        CACHE.put(s, q);
        return q;
    }
    private static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val));
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new IllegalArgumentException("Rat: not a rational: " + v);
    }
    private static Value v(Q q) {
        return new StringValue(q.isInt() ? q.n.toString() : q.n + "/" + q.d);
    }
    private static Q add(Q a, Q b) {
        if (a.isInt() && b.isInt()) return new Q(a.n.add(b.n));
        return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    private static Q mul(Q a, Q b) {
        if (a.isInt() && b.isInt()) return new Q(a.n.multiply(b.n));
        return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
    }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value R(Value a) { return v(q(a)); }
    @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
    public static Value RFrac(Value a, Value b) { return RDiv(a, b); }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(Value a, Value b) { return v(add(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(Value a, Value b) { Q y = q(b); return v(add(q(a), new Q(y.n.negate(), y.d))); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(Value a) { Q x = q(a); return v(new Q(x.n.negate(), x.d)); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(Value a, Value b) { return v(mul(q(a), q(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(Value a, Value b) { Q x = q(a), y = q(b); return v(new Q(x.n.multiply(y.d), x.d.multiply(y.n))); }
    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value RPow(Value a, Value k) {
        Q x = q(a); int e = ((IntValue) k).val;
        if (e < 0) return v(new Q(x.d.pow(-e), x.n.pow(-e)));
        return v(new Q(x.n.pow(e), x.d.pow(e)));
    }
    @TLAPlusOperator(identifier = "RLeq", module = "Rat", warn = false)
    public static Value RLeq(Value a, Value b) {
        Q x = q(a), y = q(b);
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(Value a) { Q x = q(a); return v(new Q(x.n.abs(), x.d)); }

    @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
    public static Value RRound(Value a, Value digits) {   // nearest multiple of 10^-digits
        Q x = q(a);
        BigInteger t = BigInteger.TEN.pow(((IntValue) digits).val);
        BigInteger[] r = x.n.multiply(t).shiftLeft(1).add(x.d).divideAndRemainder(x.d.shiftLeft(1));
        return v(new Q(r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0], t));
    }

    private static Value[] seq(Value s) {
        Value t = (Value) s.toTuple();
        if (t == null) throw new IllegalArgumentException("Rat: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }
    /** Sum over i of s[i] * t[i], to the shorter length. */
    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value RDot(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        Q r = new Q(BigInteger.ZERO);
        for (int i = 0; i < Math.min(a.length, b.length); i++) {
            Q x = q(a[i]);
            if (x.n.signum() == 0) continue;
            Q y = q(b[i]);
            if (y.n.signum() == 0) continue;
            r = add(r, mul(x, y));
        }
        return v(r);
    }
    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value RSum(Value s) {
        Q r = new Q(BigInteger.ZERO);
        for (Value x : seq(s)) r = add(r, q(x));
        return v(r);
    }
    /** Product of polynomials given by coefficient sequences (lowest first). */
    @TLAPlusOperator(identifier = "RConv", module = "Rat", warn = false)
    public static Value RConv(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        if (a.length == 0 || b.length == 0) return new TupleValue(new Value[0]);
        Q[] r = new Q[a.length + b.length - 1];
        for (int i = 0; i < r.length; i++) r[i] = new Q(BigInteger.ZERO);
        for (int i = 0; i < a.length; i++) {
            Q x = q(a[i]);
            if (x.n.signum() == 0) continue;
            for (int j = 0; j < b.length; j++) {
                Q y = q(b[j]);
                if (y.n.signum() != 0) r[i + j] = add(r[i + j], mul(x, y));
            }
        }
        Value[] o = new Value[r.length];
        for (int i = 0; i < r.length; i++) o[i] = v(r[i]);
        return new TupleValue(o);
    }
    /** a*s + t, elementwise, the shorter one padded with zeros. */
    @TLAPlusOperator(identifier = "RAxpy", module = "Rat", warn = false)
    public static Value RAxpy(Value c, Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        Q al = q(c);
        Value[] o = new Value[Math.max(a.length, b.length)];
        for (int i = 0; i < o.length; i++) {
            if (i >= a.length) o[i] = v(q(b[i]));
            else {
                Q x = mul(al, q(a[i]));
                o[i] = v(i < b.length ? add(x, q(b[i])) : x);
            }
        }
        return new TupleValue(o);
    }

    private static long mix(long z) {
        z += 0x9E3779B97F4A7C15L;
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }
    /** Deterministic pseudo-random number in 0..n-1 for a seed and any salt value. */
    @TLAPlusOperator(identifier = "Rnd", module = "Rnd", warn = false)
    public static Value Rnd(Value seed, Value salt, Value n) {
        long h = mix(((IntValue) seed).val);
        String s = salt.toString();
        for (int i = 0; i < s.length(); i++) h = mix(h ^ s.charAt(i));
        return IntValue.gen((int) Math.floorMod(mix(h), (long) ((IntValue) n).val));
    }
}
