import java.nio.ByteBuffer;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public final class WireOv {
    private static TupleValue unhexStr(final String s) {
        if (s.equals("nil")) return new TupleValue(new Value[] { IntValue.gen(-1) });
        if (s.startsWith("-")) return new TupleValue(new Value[] { IntValue.gen(-2) });
        final byte[] b = new byte[s.length() / 2];
        if (s.length() % 2 != 0) throw new RuntimeException("odd hex in trace: " + s);
        for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return Ov.seq(b);
    }
    @TLAPlusOperator(identifier = "Unhex", module = "Wire", warn = false)
    public static Value unhex(final Value s) { return unhexStr(((StringValue) s).getVal().toString()); }

    @TLAPlusOperator(identifier = "UnhexAll", module = "Wire", warn = false)
    public static Value unhexAll(final Value ss) {
        final TupleValue t = Ov.tup(ss);
        final Value[] r = new Value[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = unhex(t.elems[i]);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "Hex", module = "Wire", warn = false)
    public static Value hex(final Value b) {
        final StringBuilder sb = new StringBuilder();
        for (final Value e : Ov.tup(b).elems) sb.append(String.format("%02x", Ov.i(e)));
        return new StringValue(sb.toString());
    }

    @TLAPlusOperator(identifier = "Chars", module = "Wire", warn = false)
    public static Value chars(final Value s) {
        return Ov.seq(((StringValue) s).getVal().toString().getBytes(java.nio.charset.StandardCharsets.UTF_8));
    }

    /* word lookup, with one hash table for each list */
    private static final Map<Value, Map<ByteBuffer, Integer>> TABLES = Collections.synchronizedMap(new IdentityHashMap<>());
    @TLAPlusOperator(identifier = "IndexOf", module = "Bip39", warn = false)
    public static Value indexOf(final Value list, final Value w) {
        Map<ByteBuffer, Integer> m = TABLES.get(list);
        if (m == null) {
            m = new HashMap<>();
            final TupleValue t = Ov.tup(list);
            for (int i = 0; i < t.elems.length; i++) m.putIfAbsent(ByteBuffer.wrap(Ov.bytes(t.elems[i])), i);
            if (TABLES.size() > 64) TABLES.clear();
            TABLES.put(list, m);
        }
        final Integer i = m.get(ByteBuffer.wrap(Ov.bytes(w)));
        return IntValue.gen(i == null ? -1 : i);
    }
    @TLAPlusOperator(identifier = "Split", module = "Bip39", warn = false)
    public static Value split(final Value t, final Value sep) {
        final byte[] b = Ov.bytes(t);
        final List<Value> r = new ArrayList<>();
        int from = 0;
        for (int i = 0; i <= b.length; i++)
            if (i == b.length || (b[i] & 255) == Ov.i(sep)) { r.add(Ov.seq(b, from, i)); from = i + 1; }
        return new TupleValue(r.toArray(new Value[0]));
    }

    private static final String B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    @TLAPlusOperator(identifier = "Base58Encode", module = "Codec", warn = false)
    public static Value b58enc(final Value v) {
        final byte[] b = Ov.bytes(v);
        java.math.BigInteger n = new java.math.BigInteger(1, b);
        final StringBuilder sb = new StringBuilder();
        final java.math.BigInteger q = java.math.BigInteger.valueOf(58);
        while (n.signum() > 0) {
            final java.math.BigInteger[] d = n.divideAndRemainder(q);
            sb.append(B58.charAt(d[1].intValue()));
            n = d[0];
        }
        for (int i = 0; i < b.length && b[i] == 0; i++) sb.append('1');
        return Ov.seq(sb.reverse().toString().getBytes(java.nio.charset.StandardCharsets.ISO_8859_1));
    }
    @TLAPlusOperator(identifier = "Base58Decode", module = "Codec", warn = false)
    public static Value b58dec(final Value v) {
        final byte[] t = Ov.bytes(v);
        java.math.BigInteger n = java.math.BigInteger.ZERO;
        final java.math.BigInteger q = java.math.BigInteger.valueOf(58);
        int z = 0;
        while (z < t.length && t[z] == '1') z++;
        for (final byte c : t) {
            final int d = B58.indexOf((char) (c & 255));
            if (d < 0) throw new RuntimeException("not a Base58 digit: " + c);
            n = n.multiply(q).add(java.math.BigInteger.valueOf(d));
        }
        final byte[] m = Ov.bytes(Ov.num(n));
        final byte[] r = new byte[z + m.length];
        System.arraycopy(m, 0, r, z, m.length);
        return Ov.seq(r);
    }
}
