// Evaluator for spec/Vec.tla, operation by operation as defined there (bin/selftest compares).
import tlc2.value.impl.*;

public class Vec {
    static long[] v3(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        return new long[]{Num.dec(e[0]), Num.dec(e[1]), Num.dec(e[2])};
    }
    static Value t3(long a, long b, long c) { return new TupleValue(new Value[]{Num.enc(a), Num.enc(b), Num.enc(c)}); }
    static Value t3(long[] a) { return t3(a[0], a[1], a[2]); }
    static long[][] m4(Value v) {
        Value[] r = ((TupleValue) v.toTuple()).elems;
        long[][] m = new long[4][4];
        for (int i = 0; i < 4; i++) {
            Value[] e = ((TupleValue) r[i].toTuple()).elems;
            for (int j = 0; j < 4; j++) m[i][j] = Num.dec(e[j]);
        }
        return m;
    }
    static long sub(long a, long b) { return Num.add(a, Num.neg(b)); }
    static long dot(long a0, long a1, long a2, long b0, long b1, long b2) {
        return Num.add(Num.mul(a0, b0), Num.add(Num.mul(a1, b1), Num.mul(a2, b2)));
    }
    static long dot(long[] a, long[] b) { return dot(a[0], a[1], a[2], b[0], b[1], b[2]); }
    static boolean le(long a, long b) { return a != Num.NANV && b != Num.NANV && a <= b; }
    static boolean close(long a, long b, long tol) { long d = sub(a, b); return le(Num.sgn(d) < 0 ? -d : d, tol); }
    static long[] rotdir(long[][] f, long[] d) {
        return new long[]{dot(f[0][0], f[0][1], f[0][2], d[0], d[1], d[2]),
                          dot(f[1][0], f[1][1], f[1][2], d[0], d[1], d[2]),
                          dot(f[2][0], f[2][1], f[2][2], d[0], d[1], d[2])};
    }
    static long[] invdir(long[][] f, long[] d) {
        return new long[]{dot(f[0][0], f[1][0], f[2][0], d[0], d[1], d[2]),
                          dot(f[0][1], f[1][1], f[2][1], d[0], d[1], d[2]),
                          dot(f[0][2], f[1][2], f[2][2], d[0], d[1], d[2])};
    }
    static long[] add(long[] a, long[] b) { return new long[]{Num.add(a[0], b[0]), Num.add(a[1], b[1]), Num.add(a[2], b[2])}; }
    static long[] subv(long[] a, long[] b) { return new long[]{sub(a[0], b[0]), sub(a[1], b[1]), sub(a[2], b[2])}; }
    static long[] scale(long s, long[] a) { return new long[]{Num.mul(s, a[0]), Num.mul(s, a[1]), Num.mul(s, a[2])}; }
    static long[] org(long[][] f) { return new long[]{f[0][3], f[1][3], f[2][3]}; }

    public static Value Eps(Value k) { return Num.enc(1L << (40 - ((IntValue) k).val)); }
    public static Value Close(Value a, Value b, Value tol) { return Num.B(close(Num.dec(a), Num.dec(b), Num.dec(tol))); }
    public static Value Gt(Value a, Value b) { return Num.Lt(b, a); }
    public static Value Ge(Value a, Value b) { return Num.Le(b, a); }
    public static Value Sq(Value a) { long x = Num.dec(a); return Num.enc(Num.mul(x, x)); }
    public static Value VAdd(Value a, Value b) { return t3(add(v3(a), v3(b))); }
    public static Value VSub(Value a, Value b) { return t3(subv(v3(a), v3(b))); }
    public static Value VNeg(Value a) { long[] x = v3(a); return t3(Num.neg(x[0]), Num.neg(x[1]), Num.neg(x[2])); }
    public static Value VScale(Value s, Value a) { return t3(scale(Num.dec(s), v3(a))); }
    public static Value Dot(Value a, Value b) { return Num.enc(dot(v3(a), v3(b))); }
    public static Value Cross(Value a, Value b) {
        long[] x = v3(a), y = v3(b);
        return t3(sub(Num.mul(x[1], y[2]), Num.mul(x[2], y[1])),
                  sub(Num.mul(x[2], y[0]), Num.mul(x[0], y[2])),
                  sub(Num.mul(x[0], y[1]), Num.mul(x[1], y[0])));
    }
    public static Value Norm2(Value a) { long[] x = v3(a); return Num.enc(dot(x, x)); }
    public static Value Norm(Value a) { long[] x = v3(a); return Num.enc(Num.sqrt(dot(x, x))); }
    public static Value Unit(Value a) {
        long[] x = v3(a); long n = Num.sqrt(dot(x, x));
        return t3(Num.div(x[0], n), Num.div(x[1], n), Num.div(x[2], n));
    }
    public static Value VClose(Value a, Value b, Value tol) {
        long[] x = v3(a), y = v3(b); long t = Num.dec(tol);
        return Num.B(close(x[0], y[0], t) && close(x[1], y[1], t) && close(x[2], y[2], t));
    }
    public static Value At(Value v, Value t, Value d) { return t3(add(v3(v), scale(Num.dec(t), v3(d)))); }
    public static Value RotDir(Value f, Value d) { return t3(rotdir(m4(f), v3(d))); }
    public static Value ToWorld(Value f, Value p) { long[][] m = m4(f); return t3(add(org(m), rotdir(m, v3(p)))); }
    public static Value InvDir(Value f, Value d) { return t3(invdir(m4(f), v3(d))); }
    public static Value ToLocal(Value f, Value p) { long[][] m = m4(f); return t3(invdir(m, subv(v3(p), org(m)))); }
    public static Value MMul(Value a, Value b) {
        long[][] x = m4(a), y = m4(b);
        Value[] r = new Value[4];
        for (int i = 0; i < 4; i++) {
            Value[] e = new Value[4];
            for (int j = 0; j < 4; j++)
                e[j] = Num.enc(Num.add(Num.add(Num.mul(x[i][0], y[0][j]), Num.mul(x[i][1], y[1][j])),
                                       Num.add(Num.mul(x[i][2], y[2][j]), Num.mul(x[i][3], y[3][j]))));
            r[i] = new TupleValue(e);
        }
        return new TupleValue(r);
    }
    public static Value MClose(Value a, Value b, Value tol) {
        long[][] x = m4(a), y = m4(b); long t = Num.dec(tol);
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (!close(x[i][j], y[i][j], t)) return Num.B(false);
        return Num.B(true);
    }
}
