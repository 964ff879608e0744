import tlc2.value.impl.*;
import tlc2.value.IValue;

/**
 * IEEE-754 binary64 arithmetic for the TLA+ module FP.
 *
 * A number is the pair <<hi, lo>> of the two signed 32-bit halves of its bit pattern (TLC integers are 32 bit).
 * An interval is the 4-tuple <<lohi, lolo, hihi, hilo>>.
 * Nothing but arithmetic lives here: what the simulator should compute is written in TLA+.
 */
public class FP {
    /** relative widening of every interval operation: 4 ulps of binary32, the precision the simulator works in */
    static final double EPS = 4.0 / (1 << 23) / 2.0;
    static final double TINY = 1e-44;

    static TupleValue tup(Value v) {
        Value t = v.toTuple();
        if (t == null) die("not a number: " + v);
        return (TupleValue) t;
    }
    static int iv(Value v) {
        if (!(v instanceof IntValue)) die("not an integer: " + v);
        return ((IntValue) v).val;
    }
    /** a specification error: stop at once (TLC's own error formatting loops for ever on some messages) */
    static void die(String what) {
        System.out.println("Error: FP: " + what);
        new Error().printStackTrace(System.out);
        System.out.flush();
        Runtime.getRuntime().halt(77);
    }
    static double d(Value v) { TupleValue t = tup(v); return d(t, 0); }
    static double d(TupleValue t, int o) {
        return Double.longBitsToDouble(((long) iv((Value) t.elems[o]) << 32) | (iv((Value) t.elems[o + 1]) & 0xffffffffL));
    }
    static Value mk(double x) {
        long b = Double.doubleToLongBits(x == 0.0 ? 0.0 : x);
        return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---- scalars ----
    public static Value FDec(Value s) { return mk(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value FInt(Value n) { return mk(iv(n)); }
    public static Value FAdd(Value a, Value c) { return mk(d(a) + d(c)); }
    public static Value FSub(Value a, Value c) { return mk(d(a) - d(c)); }
    public static Value FMul(Value a, Value c) { return mk(d(a) * d(c)); }
    public static Value FDiv(Value a, Value c) { return mk(d(a) / d(c)); }
    public static Value FPow(Value a, Value c) { return mk(Math.pow(d(a), d(c))); }
    public static Value FExp(Value a) { return mk(Math.exp(d(a))); }
    public static Value FLn(Value a) { return mk(Math.log(d(a))); }
    public static Value FSqrt(Value a) { return mk(Math.sqrt(d(a))); }
    public static Value FAbs(Value a) { return mk(Math.abs(d(a))); }
    public static Value FMin(Value a, Value c) { return mk(Math.min(d(a), d(c))); }
    public static Value FMax(Value a, Value c) { return mk(Math.max(d(a), d(c))); }
    public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value FFinite(Value a) { return b(Double.isFinite(d(a))); }
    public static Value FCeil(Value a) {
        double x = Math.ceil(d(a));
        if (Double.isNaN(x)) return IntValue.gen(0);
        return IntValue.gen((int) Math.max(-2e9, Math.min(2e9, x)));
    }
    public static Value FFloor(Value a) {
        double x = Math.floor(d(a));
        if (Double.isNaN(x)) return IntValue.gen(0);
        return IntValue.gen((int) Math.max(-2e9, Math.min(2e9, x)));
    }
    /** rounds to the nearest binary32 */
    public static Value FSingle(Value a) { return mk((double) (float) d(a)); }
    public static Value FStr(Value a) { return new StringValue(Double.toString(d(a))); }
    public static Value FSum(Value s) {
        TupleValue t = tup(s);
        double x = 0;
        for (int i = 0; i < t.elems.length; i++) x += d((Value) t.elems[i]);
        return mk(x);
    }

    // ---- intervals ----
    static double lo(Value v) { return d(tup(v), 0); }
    static double hi(Value v) { return d(tup(v), 2); }
    static Value mkI(double l, double h) {
        if (Double.isNaN(l) || Double.isNaN(h)) { l = Double.NEGATIVE_INFINITY; h = Double.POSITIVE_INFINITY; }
        long a = Double.doubleToLongBits(l == 0.0 ? 0.0 : l), c = Double.doubleToLongBits(h == 0.0 ? 0.0 : h);
        return new TupleValue(new Value[]{IntValue.gen((int) (a >> 32)), IntValue.gen((int) a),
                                          IntValue.gen((int) (c >> 32)), IntValue.gen((int) c)});
    }
    static Value wide(double l, double h, double scale) {
        double e = EPS * scale + TINY;
        return mkI(l - e, h + e);
    }
    /** for operations whose rounding cannot change the sign of the result */
    static Value wideS(double l, double h, double scale) {
        double e = EPS * scale + TINY;
        return mkI(l >= 0 ? Math.max(0, l - e) : l - e, h <= 0 ? Math.min(0, h + e) : h + e);
    }
    static double mag(Value v) { return Math.max(Math.abs(lo(v)), Math.abs(hi(v))); }
    /** an exact binary64 value (a logged value or a literal) */
    public static Value IPoint(Value a) { double x = d(a); return mkI(x, x); }
    public static Value IRange(Value a, Value c) { return mkI(d(a), d(c)); }
    public static Value ILo(Value a) { return mk(lo(a)); }
    public static Value IHi(Value a) { return mk(hi(a)); }
    public static Value IAdd(Value a, Value c) {
        boolean same = (lo(a) >= 0 && lo(c) >= 0) || (hi(a) <= 0 && hi(c) <= 0);
        double l = lo(a) + lo(c), h = hi(a) + hi(c), g = mag(a) + mag(c);
        return same ? wideS(l, h, g) : wide(l, h, g);
    }
    public static Value ISub(Value a, Value c) {
        return wide(lo(a) - hi(c), hi(a) - lo(c), mag(a) + mag(c));
    }
    /** exact subtraction of two binary32 points: one rounding only */
    public static Value ISubExact(Value a, Value c) {
        double l = lo(a) - hi(c), h = hi(a) - lo(c);
        return wide(l, h, Math.max(Math.abs(l), Math.abs(h)));
    }
    public static Value IMul(Value a, Value c) {
        double p = m(lo(a), lo(c)), q = m(lo(a), hi(c)), r = m(hi(a), lo(c)), s = m(hi(a), hi(c));
        double l = Math.min(Math.min(p, q), Math.min(r, s)), h = Math.max(Math.max(p, q), Math.max(r, s));
        return wideS(l, h, Math.max(Math.abs(l), Math.abs(h)));
    }
    static double m(double x, double y) { return (x == 0 || y == 0) ? 0 : x * y; }
    public static Value IDiv(Value a, Value c) {
        double cl = lo(c), ch = hi(c);
        if (cl <= 0 && ch >= 0) {
            if (lo(a) == 0 && hi(a) == 0 && (cl != 0 || ch != 0)) return mkI(0, 0);
            if (cl == 0 && ch > 0 && lo(a) >= 0) return mkI(lo(a) / ch * (1 - EPS), Double.POSITIVE_INFINITY);
            if (cl == 0 && ch > 0 && hi(a) <= 0) return mkI(Double.NEGATIVE_INFINITY, hi(a) / ch * (1 - EPS));
            return mkI(Double.NEGATIVE_INFINITY, Double.POSITIVE_INFINITY);
        }
        double p = lo(a) / cl, q = lo(a) / ch, r = hi(a) / cl, s = hi(a) / ch;
        double l = Math.min(Math.min(p, q), Math.min(r, s)), h = Math.max(Math.max(p, q), Math.max(r, s));
        return wideS(l, h, Math.max(Math.abs(l), Math.abs(h)));
    }
    public static Value INeg(Value a) { return mkI(-hi(a), -lo(a)); }
    public static Value IAbs(Value a) {
        double l = lo(a), h = hi(a);
        if (l >= 0) return mkI(l, h);
        if (h <= 0) return mkI(-h, -l);
        return mkI(0, Math.max(-l, h));
    }
    public static Value IMin(Value a, Value c) { return mkI(Math.min(lo(a), lo(c)), Math.min(hi(a), hi(c))); }
    public static Value IMax(Value a, Value c) { return mkI(Math.max(lo(a), lo(c)), Math.max(hi(a), hi(c))); }
    public static Value IHull(Value a, Value c) { return mkI(Math.min(lo(a), lo(c)), Math.max(hi(a), hi(c))); }
    /** monotone functions; base >= 0 for the power */
    public static Value IPow(Value a, Value c) {
        double al = Math.max(lo(a), 0), ah = Math.max(hi(a), 0), nl = lo(c), nh = hi(c);
        double p = Math.pow(al, nl), q = Math.pow(ah, nl), r = Math.pow(al, nh), s = Math.pow(ah, nh);
        double l = Math.min(Math.min(p, q), Math.min(r, s)), h = Math.max(Math.max(p, q), Math.max(r, s));
        // an exponent n amplifies the relative error of the base
        return wideS(l, h, Math.max(Math.abs(l), Math.abs(h)) * (1 + Math.max(Math.abs(nl), Math.abs(nh))));
    }
    public static Value IExp(Value a) { double h = Math.exp(hi(a)); return wideS(Math.exp(lo(a)), h, h); }
    public static Value ILn(Value a) {
        double l = Math.log(lo(a)), h = Math.log(hi(a));
        return wide(l, h, Math.max(Math.abs(l), Math.abs(h)));
    }
    public static Value ISqrt(Value a) { double h = Math.sqrt(Math.max(0, hi(a))); return wideS(Math.sqrt(Math.max(0, lo(a))), h, h); }
    /** one rounding to binary32 (with a factor 2 of slack) */
    public static Value IRnd1(Value a) { double g = mag(a) / (1 << 23) + TINY; return mkI(lo(a) - g, hi(a) + g); }
    /** rounding to binary32 with the usual slack */
    public static Value IRnd(Value a) { return wideS(lo(a), hi(a), mag(a)); }
    /** widens by an absolute amount */
    public static Value IWiden(Value a, Value e) { double x = Math.max(Math.abs(lo(e)), Math.abs(hi(e))); return mkI(lo(a) - x, hi(a) + x); }
    public static Value IHas(Value a, Value x) { double v = d(x); return b(v >= lo(a) && v <= hi(a)); }
    public static Value IMagn(Value a) { double x = mag(a); return mkI(x, x); }
    public static Value ISum(Value s) {
        TupleValue t = tup(s);
        double l = 0, h = 0, g = 0;
        boolean pos = true;
        for (int i = 0; i < t.elems.length; i++) {
            Value v = (Value) t.elems[i];
            l += lo(v); h += hi(v); g += mag(v); pos &= lo(v) >= 0;
        }
        return pos ? wideS(l, h, g) : wide(l, h, g);
    }
    public static Value IStr(Value a) { return new StringValue("[" + lo(a) + ", " + hi(a) + "]"); }
    public static Value ISurelyLt(Value a, Value c) { return b(hi(a) < lo(c)); }
    public static Value ISurelyLe(Value a, Value c) { return b(hi(a) <= lo(c)); }
    /** relative width, for reports on how sharp a prediction was */
    public static Value IWidth(Value a) { return mk(hi(a) - lo(a)); }
}
