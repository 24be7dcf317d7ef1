import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC module override for spec/BigInt.tla: the same operators on the same
 * representation (<<sign, limb1, ...>>, base 10^4, little endian), computed
 * with java.math.BigInteger.  Speed only; the TLA+ definitions are the meaning.
 */
public class BigInt {
    private static final BigInteger BASE = BigInteger.valueOf(10000);

    private static BigInteger in(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final Value[] e = t.elems;
        final int sign = ((IntValue) e[0]).val;
        BigInteger r = BigInteger.ZERO;
        int i = e.length - 1;
        // four limbs (10^16) at a time
        while (i >= 1) {
            long chunk = 0;
            long mul = 1;
            int k = 0;
            while (k < 4 && i >= 1) {
                chunk = chunk * 10000L + ((IntValue) e[i]).val;
                mul *= 10000L;
                i--;
                k++;
            }
            r = r.multiply(BigInteger.valueOf(mul)).add(BigInteger.valueOf(chunk));
        }
        return sign < 0 ? r.negate() : r;
    }

    private static Value out(final BigInteger x) {
        if (x.signum() == 0) {
            return new TupleValue(new Value[] { IntValue.gen(0) });
        }
        BigInteger m = x.abs();
        final java.util.ArrayList<Value> l = new java.util.ArrayList<>();
        l.add(IntValue.gen(x.signum()));
        final BigInteger B4 = BigInteger.valueOf(10000000000000000L);
        while (m.signum() > 0) {
            final BigInteger[] qr = m.divideAndRemainder(B4);
            long c = qr[1].longValue();
            m = qr[0];
            for (int k = 0; k < 4; k++) {
                if (c == 0 && m.signum() == 0) {
                    break;
                }
                l.add(IntValue.gen((int) (c % 10000)));
                c /= 10000;
            }
        }
        return new TupleValue(l.toArray(new Value[0]));
    }

    public static Value BFrom(final Value n) {
        return out(BigInteger.valueOf(((IntValue) n).val));
    }

    public static Value BNeg(final Value x) {
        return out(in(x).negate());
    }

    public static Value BAbs(final Value x) {
        return out(in(x).abs());
    }

    public static Value BAdd(final Value x, final Value y) {
        return out(in(x).add(in(y)));
    }

    public static Value BSub(final Value x, final Value y) {
        return out(in(x).subtract(in(y)));
    }

    public static Value BMul(final Value x, final Value y) {
        return out(in(x).multiply(in(y)));
    }

    public static Value BDiv(final Value x, final Value y) {
        return out(in(x).divide(in(y)));
    }

    public static Value BSqrt(final Value x) {
        return out(in(x).sqrt());
    }

    public static Value BCmp(final Value x, final Value y) {
        return IntValue.gen(in(x).compareTo(in(y)));
    }

    public static Value BLeq(final Value x, final Value y) {
        return in(x).compareTo(in(y)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value BLt(final Value x, final Value y) {
        return in(x).compareTo(in(y)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
