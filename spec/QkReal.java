import tlc2.value.impl.*;

/** Arithmetic on IEEE doubles for TLC: the primitive operators of module QkReal. */
public class QkReal {
    static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long h = ((IntValue) t.elems[0]).val, l = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((h << 32) | (l & 0xffffffffL));
    }
    static Value v(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RInt(Value a) { return v(((IntValue) a).val); }
    public static Value RQ(Value a, Value b) { return v((double) ((IntValue) a).val / (double) ((IntValue) b).val); }
    public static Value RDec(Value a) { return v(Double.parseDouble(((StringValue) a).val.toString())); }
    public static Value RAdd(Value a, Value b) { return v(d(a) + d(b)); }
    public static Value RSub(Value a, Value b) { return v(d(a) - d(b)); }
    public static Value RMul(Value a, Value b) { return v(d(a) * d(b)); }
    public static Value RDiv(Value a, Value b) { return v(d(a) / d(b)); }
    public static Value RNeg(Value a) { return v(-d(a)); }
    public static Value RAbs(Value a) { return v(Math.abs(d(a))); }
    public static Value RSqrt(Value a) { return v(Math.sqrt(d(a))); }
    public static Value RExp(Value a) { return v(Math.exp(d(a))); }
    public static Value RSin(Value a) { return v(Math.sin(d(a))); }
    public static Value RCos(Value a) { return v(Math.cos(d(a))); }
    public static Value RTanh(Value a) { return v(Math.tanh(d(a))); }
    public static Value RCosh(Value a) { return v(Math.cosh(d(a))); }
    public static Value RPow(Value a, Value b) { return v(Math.pow(d(a), d(b))); }
    public static Value RMax(Value a, Value b) { return v(Math.max(d(a), d(b))); }
    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value RFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
    /** |a - c| <= tol * scale, all finite */
    public static Value RNear(Value a, Value c, Value scale, Value tol) {
        double e = Math.abs(d(a) - d(c));
        return b(e <= d(tol) * d(scale));
    }
    public static Value RShow(Value a) { return new StringValue(Double.toString(d(a))); }
    public static Value RSum(Value a) { double x = 0; for (Value e : ((TupleValue) a.toTuple()).elems) x += d(e); return v(x); }
    public static Value RSumAbs(Value a) { double x = 0; for (Value e : ((TupleValue) a.toTuple()).elems) x += Math.abs(d(e)); return v(x); }
}
