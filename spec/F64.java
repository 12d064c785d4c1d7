import tlc2.value.impl.*;
import util.UniqueString;

/** Java values of the primitive operators of module F64 (see F64.tla). */
public class F64 {
    static double d(Value v) {
        Value[] e;
        if (v instanceof TupleValue) e = ((TupleValue) v).elems;
        else e = ((TupleValue) v.toTuple()).elems;
        long hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value v(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RInt(Value a) { return v(((IntValue) a).val); }
    public static Value RDec(Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value RSplit(Value s) {
        String[] p = ((StringValue) s).val.toString().split(",", -1);
        Value[] r = new Value[p.length];
        for (int i = 0; i < p.length; i++) r[i] = new StringValue(UniqueString.of(p[i]));
        return new TupleValue(r);
    }
    public static Value RToInt(Value a) { return IntValue.gen((int) d(a)); }
    public static Value RStr(Value a) { return new StringValue(UniqueString.of(Double.toString(d(a)))); }
    public static Value RAdd(Value a, Value c) { return v(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return v(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return v(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return v(d(a) / d(c)); }
    public static Value RNeg(Value a) { return v(-d(a)); }
    public static Value RAbs(Value a) { return v(Math.abs(d(a))); }
    public static Value RSqrt(Value a) { return v(Math.sqrt(d(a))); }
    public static Value RExp(Value a) { return v(Math.exp(d(a))); }
    public static Value RLog(Value a) { return v(Math.log(d(a))); }
    public static Value RSin(Value a) { return v(Math.sin(d(a))); }
    public static Value RCos(Value a) { return v(Math.cos(d(a))); }
    public static Value RTan(Value a) { return v(Math.tan(d(a))); }
    public static Value RAtan(Value a) { return v(Math.atan(d(a))); }
    public static Value RPow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
    public static Value RFloor(Value a) { return v(Math.floor(d(a))); }
    public static Value RRound(Value a) { double x = d(a); return v(Math.copySign(Math.floor(Math.abs(x) + 0.5), x)); }
    public static Value RLgamma(Value a) { return v(lgamma(d(a))); }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value RMax(Value a, Value c) { double x = d(a), y = d(c); return x >= y ? a : c; }
    public static Value RMin(Value a, Value c) { double x = d(a), y = d(c); return x <= y ? a : c; }
    public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value RNaN(Value a) { return b(Double.isNaN(d(a))); }

    static boolean near(double x, double y, double r, double t) {
        if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
        if (x == y) return true;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
        return Math.abs(x - y) <= t + r * Math.max(Math.abs(x), Math.abs(y));
    }
    public static Value RNear(Value a, Value c, Value r, Value t) { return b(near(d(a), d(c), d(r), d(t))); }

    static TupleValue tup(Value f) {
        if (f instanceof TupleValue) return (TupleValue) f;
        return (TupleValue) f.toTuple();
    }
    public static Value Force(Value f) {
        TupleValue t = tup(f);
        return t == null ? f : t;
    }
    public static Value Force2(Value f) {
        TupleValue t = tup(f);
        if (t == null) return f;
        Value[] r = new Value[t.elems.length];
        for (int i = 0; i < r.length; i++) {
            TupleValue u = tup(t.elems[i]);
            r[i] = u == null ? t.elems[i] : u;
        }
        return new TupleValue(r);
    }
    static long mix(long z) {
        z += 0x9e3779b97f4a7c15L;
        z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
        z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
        return z ^ (z >>> 31);
    }
    public static Value RRand(Value s, Value i) {
        long x = mix(mix(((IntValue) s).val) * 31 + ((IntValue) i).val);
        return v((x >>> 11) * 0x1.0p-53);
    }
    // Lanczos approximation (g = 7, n = 9); about 1e-14 relative.
    static final double[] L = { 0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313,
        -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7 };
    static double lgamma(double x) {
        if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
        x -= 1;
        double a = L[0], t = x + 7.5;
        for (int i = 1; i < 9; i++) a += L[i] / (x + i);
        return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a);
    }
}
