import java.math.BigInteger;
import tlc2.value.impl.*;

/** Conversions between TLA+ byte sequences and Java, shared by the evaluators. */
final class Ov {
    private static final IntValue[] BYTES = new IntValue[256];
    static { for (int i = 0; i < 256; i++) BYTES[i] = IntValue.gen(i); }

    static TupleValue tup(final Value v) {
        final Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return (TupleValue) t;
    }
    static byte[] bytes(final Value v) {
        final TupleValue t = tup(v);
        final byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) {
            final int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte sequence: " + v);
            b[i] = (byte) x;
        }
        return b;
    }
    static TupleValue seq(final byte[] b) { return seq(b, 0, b.length); }
    static TupleValue seq(final byte[] b, final int from, final int to) {
        final Value[] e = new Value[to - from];
        for (int i = from; i < to; i++) e[i - from] = BYTES[b[i] & 255];
        return new TupleValue(e);
    }
    static BigInteger big(final Value v) { return new BigInteger(1, bytes(v)); }
    static TupleValue num(final BigInteger n) {
        if (n.signum() < 0) throw new RuntimeException("negative number");
        if (n.signum() == 0) return (TupleValue) TupleValue.EmptyTuple;
        final byte[] b = n.toByteArray();
        return seq(b, b[0] == 0 ? 1 : 0, b.length);
    }
    static int i(final Value v) { return ((IntValue) v).val; }
    private Ov() {}
}
