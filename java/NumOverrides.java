import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Fast versions of the operators that spec/big/Num.tla defines in TLA+. They must agree with those
 * definitions; spec/mc/NumTest.tla compares them (NumPure.tla is the same text, not overridden).
 *
 * An integer is <<sign, limb, ...>> with little-endian limbs in base 10^4, no leading zero limbs.
 */
public class NumOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {NumOverrides.class};
    }

    private static final BigInteger BASE = BigInteger.valueOf(10000);
    private static final IntValue[] LIMB = new IntValue[10000];
    private static final IntValue[] SIGN = {IntValue.gen(-1), IntValue.gen(0), IntValue.gen(1)};

    static {
        for (int i = 0; i < LIMB.length; i++) {
            LIMB[i] = IntValue.gen(i);
        }
    }

    private static int at(TupleValue t, int i) {
        return ((IntValue) t.elems[i]).val;
    }

    private static TupleValue tup(Value v) {
        return (TupleValue) v.toTuple();
    }

    private static BigInteger big(Value v) {
        final TupleValue t = tup(v);
        final int k = t.elems.length;
        if (k <= 5) {
            return BigInteger.valueOf(small(t));
        }
        BigInteger r = BigInteger.ZERO;
        for (int i = k - 1; i >= 1; i--) {
            r = r.multiply(BASE).add(BigInteger.valueOf(at(t, i)));
        }
        return at(t, 0) < 0 ? r.negate() : r;
    }

    private static long small(TupleValue t) {
        long r = 0;
        for (int i = t.elems.length - 1; i >= 1; i--) {
            r = r * 10000 + at(t, i);
        }
        return at(t, 0) < 0 ? -r : r;
    }

    private static Value val(long v) {
        final Value[] tmp = new Value[6];
        long m = Math.abs(v);
        int k = 1;
        tmp[0] = SIGN[Long.signum(v) + 1];
        while (m > 0) {
            tmp[k++] = LIMB[(int) (m % 10000)];
            m /= 10000;
        }
        return new TupleValue(java.util.Arrays.copyOf(tmp, k));
    }

    private static final BigInteger LIM = BigInteger.TEN.pow(18);

    private static Value val(BigInteger v) {
        if (v.abs().compareTo(LIM) < 0) {
            return val(v.longValue());
        }
        final java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        out.add(SIGN[v.signum() + 1]);
        BigInteger m = v.abs();
        while (m.signum() > 0) {
            final BigInteger[] qr = m.divideAndRemainder(BASE);
            out.add(LIMB[qr[1].intValue()]);
            m = qr[0];
        }
        return new TupleValue(out.toArray(new Value[0]));
    }

    @TLAPlusOperator(identifier = "Lit", module = "Num", warn = false)
    public static Value lit(Value i) {
        return val(((IntValue) i).val);
    }

    private static int magCmp(TupleValue a, TupleValue b) {
        if (a.elems.length != b.elems.length) {
            return a.elems.length < b.elems.length ? -1 : 1;
        }
        for (int i = a.elems.length - 1; i >= 1; i--) {
            final int d = at(a, i) - at(b, i);
            if (d != 0) {
                return d < 0 ? -1 : 1;
            }
        }
        return 0;
    }

    private static Value magAdd(int sign, TupleValue a, TupleValue b) {
        if (a.elems.length < b.elems.length) {
            return magAdd(sign, b, a);
        }
        final int n = a.elems.length, m = b.elems.length;
        final Value[] r = new Value[n + 1];
        r[0] = SIGN[sign + 1];
        int carry = 0;
        for (int i = 1; i < n; i++) {
            int s = at(a, i) + carry + (i < m ? at(b, i) : 0);
            carry = s >= 10000 ? 1 : 0;
            r[i] = LIMB[s - carry * 10000];
        }
        if (carry == 0) {
            return new TupleValue(java.util.Arrays.copyOf(r, n));
        }
        r[n] = LIMB[1];
        return new TupleValue(r);
    }

    /** |a| > |b| */
    private static Value magSub(int sign, TupleValue a, TupleValue b) {
        final int n = a.elems.length, m = b.elems.length;
        final Value[] r = new Value[n];
        r[0] = SIGN[sign + 1];
        int borrow = 0;
        for (int i = 1; i < n; i++) {
            int s = at(a, i) - borrow - (i < m ? at(b, i) : 0);
            borrow = s < 0 ? 1 : 0;
            r[i] = LIMB[s + borrow * 10000];
        }
        int k = n;
        while (k > 1 && r[k - 1] == LIMB[0]) {
            k--;
        }
        return new TupleValue(k == n ? r : java.util.Arrays.copyOf(r, k));
    }

    private static Value signedAdd(TupleValue a, int sa, TupleValue b, int sb) {
        if (sb == 0) {
            return a;
        }
        if (sa == 0) {
            return sb == at(b, 0) ? b : neg(b);
        }
        if (sa == sb) {
            return magAdd(sa, a, b);
        }
        final int c = magCmp(a, b);
        return c == 0 ? ZERO : c > 0 ? magSub(sa, a, b) : magSub(sb, b, a);
    }

    private static final TupleValue ZERO = new TupleValue(new Value[] {SIGN[1]});

    @TLAPlusOperator(identifier = "Add", module = "Num", warn = false)
    public static Value add(Value x, Value y) {
        final TupleValue a = tup(x), b = tup(y);
        return signedAdd(a, at(a, 0), b, at(b, 0));
    }

    @TLAPlusOperator(identifier = "Sub", module = "Num", warn = false)
    public static Value sub(Value x, Value y) {
        final TupleValue a = tup(x), b = tup(y);
        return signedAdd(a, at(a, 0), b, -at(b, 0));
    }

    @TLAPlusOperator(identifier = "Mul", module = "Num", warn = false)
    public static Value mul(Value x, Value y) {
        final TupleValue a = tup(x), b = tup(y);
        if (a.elems.length <= 3 && b.elems.length <= 3) {
            return val(small(a) * small(b));
        }
        return val(big(a).multiply(big(b)));
    }

    @TLAPlusOperator(identifier = "Neg", module = "Num", warn = false)
    public static Value neg(Value x) {
        final TupleValue a = tup(x);
        final Value[] e = a.elems.clone();
        e[0] = SIGN[1 - at(a, 0)];
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "Cmp", module = "Num", warn = false)
    public static Value cmp(Value x, Value y) {
        final TupleValue a = tup(x), b = tup(y);
        final int sa = at(a, 0), sb = at(b, 0);
        return SIGN[(sa != sb ? (sa < sb ? -1 : 1) : sa * magCmp(a, b)) + 1];
    }

    @TLAPlusOperator(identifier = "IsEven", module = "Num", warn = false)
    public static Value isEven(Value x) {
        final TupleValue a = tup(x);
        return (a.elems.length == 1 || at(a, 1) % 2 == 0) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** exact half of an even integer */
    @TLAPlusOperator(identifier = "Half", module = "Num", warn = false)
    public static Value half(Value x) {
        final TupleValue a = tup(x);
        final int n = a.elems.length;
        final Value[] r = new Value[n];
        r[0] = a.elems[0];
        int carry = 0;
        for (int i = n - 1; i >= 1; i--) {
            final int s = carry * 10000 + at(a, i);
            r[i] = LIMB[s / 2];
            carry = s % 2;
        }
        return new TupleValue(n > 1 && r[n - 1] == LIMB[0] ? java.util.Arrays.copyOf(r, n - 1) : r);
    }

    /** <<p/g, q/g>> for p, q > 0 and g their greatest common divisor */
    @TLAPlusOperator(identifier = "Coprime", module = "Num", warn = false)
    public static Value coprime(Value x, Value y) {
        final BigInteger p = big(x), q = big(y), g = p.gcd(q);
        return new TupleValue(new Value[] {val(p.divide(g)), val(q.divide(g))});
    }
}
