import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates the operators of spec/Rat.tla. */
public class Rat {
    private static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;

    private static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new ArithmeticException("Rat: zero denominator");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
    }

    private static final java.util.concurrent.ConcurrentHashMap<UniqueString, Q> CACHE =
        new java.util.concurrent.ConcurrentHashMap<>();

    private static Q parse(String s) {
        int k = s.indexOf('/');
        return k < 0 ? new Q(new BigInteger(s), ONE)
            : new Q(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
    }

    private static Q q(Value v) {
        if (v instanceof StringValue) {
            UniqueString u = ((StringValue) v).val;
            Q r = CACHE.get(u);
            if (r == null) {
                r = parse(u.toString());
                if (CACHE.size() < 2000000) CACHE.put(u, r);
            }
            return r;
        }
        throw new IllegalArgumentException("Rat: not a rational: " + v);
    }

    private static StringValue out(Q x) {
        String t = x.d.equals(ONE) ? x.n.toString() : x.n + "/" + x.d;
        return new StringValue(t);
    }
    private static StringValue out(BigInteger n) { return new StringValue(n.toString()); }
    private static StringValue out(BigInteger n, BigInteger d) { return out(new Q(n, d)); }

    private static BigInteger integer(Value v) {
        Q x = q(v);
        if (!x.d.equals(ONE)) throw new ArithmeticException("Rat: integer expected, got " + v);
        return x.n;
    }

    public static Value QInt(Value i) { return out(BigInteger.valueOf(((IntValue) i).val)); }
    public static Value QFrac(Value n, Value d) {
        return out(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val));
    }
    private static Q add(Q a, Q b) {
        if (a.d.equals(ONE) && b.d.equals(ONE)) return new Q(a.n.add(b.n), ONE);
        return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    private static Q mul(Q a, Q b) { return new Q(a.n.multiply(b.n), a.d.multiply(b.d)); }
    public static Value QAdd(Value x, Value y) { return out(add(q(x), q(y))); }
    public static Value QSub(Value x, Value y) {
        Q b = q(y);
        return out(add(q(x), new Q(b.n.negate(), b.d)));
    }
    public static Value QMul(Value x, Value y) { return out(mul(q(x), q(y))); }
    public static Value QDiv(Value x, Value y) {
        Q a = q(x), b = q(y);
        return out(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    public static Value QNeg(Value x) { Q a = q(x); return out(new Q(a.n.negate(), a.d)); }
    public static Value QAbs(Value x) { Q a = q(x); return out(new Q(a.n.abs(), a.d)); }
    public static Value QCmp(Value x, Value y) {
        Q a = q(x), b = q(y);
        return IntValue.gen(Integer.signum(a.n.multiply(b.d).compareTo(b.n.multiply(a.d))));
    }
    private static BigInteger floor(Q a) {
        BigInteger[] r = a.n.divideAndRemainder(a.d);
        return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    }
    public static Value QFloor(Value x) { return out(floor(q(x))); }
    public static Value QIsInt(Value x) { return q(x).d.equals(ONE) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value QNum(Value x) { return out(q(x).n); }
    public static Value QDen(Value x) { return out(q(x).d); }
    public static Value QGcd(Value x, Value y) { return out(integer(x).gcd(integer(y))); }
    public static Value QPow(Value x, Value n) {
        Q a = q(x);
        int e = ((IntValue) n).val;
        return out(new Q(a.n.pow(e), a.d.pow(e)));
    }
    public static Value QToInt(Value x) { return IntValue.gen(integer(x).intValueExact()); }
    public static Value QValid(Value v) {
        if (!(v instanceof StringValue)) return BoolValue.ValFalse;
        String t = ((StringValue) v).val.toString();
        if (!t.matches("-?[0-9]+(/[0-9]+)?")) return BoolValue.ValFalse;
        try {
            return ((StringValue) out(parse(t))).val.toString().equals(t) ? BoolValue.ValTrue : BoolValue.ValFalse;
        } catch (ArithmeticException e) {
            return BoolValue.ValFalse;
        }
    }
    public static Value QDot(Value u, Value v) {
        TupleValue a = (TupleValue) u.toTuple(), b = (TupleValue) v.toTuple();
        if (b.elems.length < a.elems.length) throw new IllegalArgumentException("QDot: lengths differ");
        Q t = new Q(ZERO, ONE);
        for (int i = 0; i < a.elems.length; i++) t = add(t, mul(q((Value) a.elems[i]), q((Value) b.elems[i])));
        return out(t);
    }
}
