// Evaluator for spec/Num.tla: TLC calls these instead of the (32-bit) TLA+ definitions.
import tlc2.value.impl.*;
import java.math.BigInteger;

public class Num {
    static final long NANV = Long.MIN_VALUE, INFV = Long.MAX_VALUE, NINFV = Long.MIN_VALUE + 1;
    static final long LIM = 2147483647L << 30;
    static final Value NANT = tup(2147483647, 1), INFT = tup(2147483647, 0), NINFT = tup(-2147483647, 0);

    static Value tup(int a, int b) { return new TupleValue(new Value[]{IntValue.gen(a), IntValue.gen(b)}); }

    static long dec(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int hi = ((IntValue) e[0]).val, lo = ((IntValue) e[1]).val;
        if (hi == 2147483647) return lo == 0 ? INFV : NANV;
        if (hi == -2147483647 && lo == 0) return NINFV;
        return ((long) hi << 30) + lo;
    }
    static Value enc(long n) {
        if (n == NANV) return NANT;
        if (n == INFV) return INFT;
        if (n == NINFV) return NINFT;
        if (n >= LIM || n <= -LIM) return NANT;
        return tup((int) (n >> 30), (int) (n & 0x3fffffffL));
    }
    static boolean inf(long a) { return a == INFV || a == NINFV; }
    static int sgn(long a) { return a == NANV ? 0 : Long.signum(a); }
    static long neg(long a) { return a == NANV ? NANV : -a; }
    static long fit(long a) { return (a >= LIM || a <= -LIM) ? NANV : a; }
    static long add(long a, long b) {
        if (a == NANV || b == NANV) return NANV;
        if (inf(a)) return inf(b) && a != b ? NANV : a;
        if (inf(b)) return b;
        return fit(a + b);
    }
    static long mul(long a, long b) {
        if (a == NANV || b == NANV) return NANV;
        if (inf(a) || inf(b)) {
            int s = sgn(a) * sgn(b);
            return s == 0 ? NANV : s > 0 ? INFV : NINFV;
        }
        long hi = Math.multiplyHigh(a, b), lo = a * b;
        long lo2 = lo + (1L << 39);
        if (Long.compareUnsigned(lo2, lo) < 0) hi++;
        // (hi:lo2) >> 40
        long top = hi >> 39;                 // must be sign extension for a fit
        if (top != 0 && top != -1) return NANV;
        long r = (hi << 24) | (lo2 >>> 40);
        return fit(r);
    }
    static long div(long a, long b) {
        if (a == NANV || b == NANV) return NANV;
        if (inf(b)) return inf(a) ? NANV : 0;
        if (b == 0) return NANV;
        if (inf(a)) return b > 0 ? a : -a;
        BigInteger n = BigInteger.valueOf(b < 0 ? -a : a).shiftLeft(40), d = BigInteger.valueOf(Math.abs(b));
        BigInteger[] qr = n.divideAndRemainder(d);
        BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        if (q.bitLength() > 62) return NANV;
        return fit(q.longValue());
    }
    static long sqrt(long a) {
        if (a == NANV || a < 0) return NANV;
        if (a == INFV) return INFV;
        return BigInteger.valueOf(a).shiftLeft(40).sqrt().longValue();
    }
    static Value B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value IsNaN(Value x) { return B(dec(x) == NANV); }
    public static Value IsInf(Value x) { return B(inf(dec(x))); }
    public static Value IsFin(Value x) { long a = dec(x); return B(a != NANV && !inf(a)); }
    public static Value FromInt(Value v) { long n = ((IntValue) v).val; return enc(n << 40 >> 40 == n ? fit(n << 40) : NANV); }
    public static Value Opp(Value x) { return enc(neg(dec(x))); }
    public static Value Add(Value x, Value y) { return enc(add(dec(x), dec(y))); }
    public static Value Sub(Value x, Value y) { return enc(add(dec(x), neg(dec(y)))); }
    public static Value Sgn(Value x) { return IntValue.gen(sgn(dec(x))); }
    public static Value Mul(Value x, Value y) { return enc(mul(dec(x), dec(y))); }
    public static Value Div(Value x, Value y) { return enc(div(dec(x), dec(y))); }
    public static Value Sqrt(Value x) { return enc(sqrt(dec(x))); }
    public static Value Lt(Value x, Value y) { long a = dec(x), b = dec(y); return B(a != NANV && b != NANV && a < b); }
    public static Value Le(Value x, Value y) { long a = dec(x), b = dec(y); return B(a != NANV && b != NANV && a <= b); }
    public static Value Abs(Value x) { long a = dec(x); return sgn(a) < 0 ? enc(-a) : x; }
    public static Value MinN(Value x, Value y) { long a = dec(x), b = dec(y); return a == NANV || b == NANV ? NANT : a <= b ? x : y; }
    public static Value MaxN(Value x, Value y) { long a = dec(x), b = dec(y); return a == NANV || b == NANV ? NANT : a <= b ? y : x; }
}
