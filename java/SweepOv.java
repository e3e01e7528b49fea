import java.io.ByteArrayOutputStream;
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** The records of Sweep.tla. SelfTest compares them with their definition. */
public final class SweepOv {
    private static final BigInteger P = new BigInteger("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16);
    private static final BigInteger N = new BigInteger("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16);
    private static final BigInteger[] G = { new BigInteger("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16),
                                            new BigInteger("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16) };
    private static final BigInteger CUBE = new BigInteger("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16);
    private static final BigInteger ROOT = P.add(BigInteger.ONE).shiftRight(2), SEVEN = BigInteger.valueOf(7);
    private static final String[][] NETS = { { "80", "00" }, { "EF", "6F" }, { "B0", "30" }, { "aB", "Cd" }, { "00", "FF" } };
    private static final int[] SIZES = { 16, 20, 24, 28, 32 };
    private static final String B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    private static final String HEX = "0123456789abcdef";

    private final ByteArrayOutputStream out = new ByteArrayOutputStream();
    private final MessageDigest sha;
    private final String seed;
    private final Value lists;
    private SweepOv(final String seed, final Value lists) throws Exception { this.seed = seed; this.lists = lists; sha = MessageDigest.getInstance("SHA-256"); }

    /* ---- texts ---- */
    private static byte[] ascii(final String s) { return s.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1); }
    private static String hex(final byte[] b) {
        final StringBuilder s = new StringBuilder();
        for (final byte x : b) s.append(HEX.charAt((x >> 4) & 15)).append(HEX.charAt(x & 15));
        return s.toString();
    }
    private static byte[] num(final BigInteger n) {
        final byte[] b = n.toByteArray();
        return n.signum() == 0 ? new byte[0] : b[0] == 0 ? Arrays.copyOfRange(b, 1, b.length) : b;
    }
    private static byte[] pad(final BigInteger n) {
        final byte[] b = num(n), r = new byte[32];
        System.arraycopy(b, 0, r, 32 - b.length, b.length);
        return r;
    }
    private static byte[] cat(final byte[]... bs) {
        int n = 0;
        for (final byte[] b : bs) n += b.length;
        final byte[] r = new byte[n];
        n = 0;
        for (final byte[] b : bs) { System.arraycopy(b, 0, r, n, b.length); n += b.length; }
        return r;
    }
    private static String base58(final byte[] b) {
        BigInteger n = new BigInteger(1, b);
        final StringBuilder s = new StringBuilder();
        final BigInteger q = BigInteger.valueOf(58L * 58 * 58 * 58 * 58);
        while (n.signum() > 0) {
            final BigInteger[] d = n.divideAndRemainder(q);
            long r = d[1].longValue();
            n = d[0];
            for (int i = 0; i < 5 && (n.signum() > 0 || r > 0); i++) { s.append(B58.charAt((int) (r % 58))); r /= 58; }
        }
        for (int i = 0; i < b.length && b[i] == 0; i++) s.append('1');
        return s.reverse().toString();
    }
    private String b58check(final byte[] b) { return base58(cat(b, Arrays.copyOf(sha.digest(sha.digest(b)), 4))); }
    /** the payload of a text of Base58 digits, null when the checksum is wrong */
    private byte[] payload(final String t) {
        BigInteger n = BigInteger.ZERO;
        final BigInteger q = BigInteger.valueOf(58);
        for (int i = 0; i < t.length(); i++) n = n.multiply(q).add(BigInteger.valueOf(B58.indexOf(t.charAt(i))));
        int z = 0;
        while (z < t.length() && t.charAt(z) == '1') z++;
        final byte[] b = cat(new byte[z], num(n));
        if (b.length < 4) return null;
        final byte[] p = Arrays.copyOf(b, b.length - 4);
        return Arrays.equals(Arrays.copyOf(sha.digest(sha.digest(p)), 4), Arrays.copyOfRange(b, b.length - 4, b.length)) ? p : null;
    }
    private static byte one(final String h) { return (byte) Integer.parseInt(h, 16); }

    /* ---- records ---- */
    private void field(final byte[] b) { out.write(b.length >> 8); out.write(b.length); out.write(b, 0, b.length); }
    private void text(final String s) { field(ascii(s)); }
    private static boolean inRange(final BigInteger k) { return k.signum() > 0 && k.compareTo(N) < 0; }
    private String wif(final BigInteger k, final String[] net) { return b58check(cat(new byte[] { one(net[0]) }, pad(k))); }
    private void privKey(final BigInteger k, final String hex, final String wif, final String[] net) { field(num(k)); text(hex); text(wif); text(net[0]); text(net[1]); }
    private void priv(final BigInteger k, final String[] net) { privKey(k, hex(pad(k)), wif(k, net), net); }
    private void pubKey(final BigInteger[] p, final String[] net) { field(num(p[0])); field(num(p[1])); text(net[0]); text(net[1]); }
    private void pubAns(final BigInteger[] p, final String[] net) { if (p == null) text("err"); else { text("ok"); pubKey(p, net); } }
    private void importWif(final String t, final String[] net) {
        final byte[] p = payload(t);
        if (p != null && (p.length == 33 || p.length == 34 && p[33] == 1) && p[0] == one(net[0])) {
            final BigInteger k = new BigInteger(1, Arrays.copyOfRange(p, 1, 33));
            if (inRange(k)) { text("ok"); privKey(k, hex(pad(k)), t, net); return; }
        }
        text("err");
    }

    /* ---- arguments ---- */
    private byte[] d(final String kind, final int i, final int j) { return sha.digest(ascii(seed + "|sweep-" + kind + j + "|" + i)); }
    private static byte[] shape(final int i, final byte[] d, final byte[] e) {
        if (i % 2 == 0) return d;
        final int a = (e[0] & 255) % 32, n = 1 + (e[1] & 255) % (32 - a);
        final byte[] r = d.clone();
        Arrays.fill(r, a, a + n, new byte[] { 0, (byte) 255, (byte) 128, 1 }[(e[2] & 255) % 4]);
        return r;
    }
    private static String upper(final String t, final int i) { return i % 3 == 0 ? t.toUpperCase(Locale.ROOT) : t; }
    private static String edit(final String t, final int at, final char c) { return t.substring(0, at) + c + t.substring(at + 1); }

    /* ---- items ---- */
    private void privItem(final int i) {
        final byte[] e = d("priv", i, 2), s = shape(i, d("priv", i, 1), e);
        final String[] net = NETS[i % 5];
        final String t = upper(hex(s), i);
        final BigInteger k = new BigInteger(1, s);
        text(t);
        if (!inRange(k)) { text("err"); return; }
        final String w = wif(k, net), cw = b58check(cat(new byte[] { one(net[0]) }, s, new byte[] { 1 }));
        final String bad = edit(w, (e[3] & 255) % w.length(), B58.charAt((e[4] & 255) % 58));
        text("ok"); privKey(k, t, w, net);
        importWif(w, net);
        text("ok"); field(new byte[] { 1 });
        text(cw); importWif(cw, net);
        text(bad); text("ok"); field(new byte[] { (byte) (payload(bad) != null ? 1 : 0) }); importWif(bad, net);
        importWif(w, NETS[(i + 1 + (e[5] & 255) % 4) % 5]);
    }
    private void arithItem(final int i) {
        final byte[] e = d("arith", i, 3);
        final BigInteger a = new BigInteger(1, shape(i, d("arith", i, 1), e)), small = BigInteger.valueOf(e[7] & 255);
        final String[] net = NETS[i % 5];
        if (!inRange(a)) { text("skip"); return; }
        final BigInteger b = i % 8 == 5 ? small.subtract(a).mod(N) : i % 8 == 6 ? small.multiply(a.modInverse(N)).mod(N)
                : new BigInteger(1, shape(i / 2, d("arith", i, 2), d("arith", i, 4)));
        if (!inRange(b)) { text("skip"); return; }
        field(num(a)); field(num(b));
        text("ok"); priv(a, net); text("ok"); priv(b, net);
        final BigInteger s = a.add(b).mod(N), m = a.multiply(b).mod(N);
        for (int op = 0; op < 2; op++) {
            final BigInteger r = op == 0 ? s : m;
            if (a.equals(b) || r.signum() == 0) text("err"); else { text("ok"); priv(r, net); }
            priv(a, net); priv(b, net);
        }
    }
    private static BigInteger rhs(final BigInteger x) { return x.multiply(x).multiply(x).add(SEVEN).mod(P); }
    private static BigInteger[] lift(final BigInteger x, final boolean odd) {
        if (x.compareTo(P) >= 0) return null;
        final BigInteger c = rhs(x), y = c.modPow(ROOT, P);
        if (!y.multiply(y).mod(P).equals(c)) return null;
        return new BigInteger[] { x, y.testBit(0) == odd ? y : P.subtract(y).mod(P) };
    }
    private static byte[] format(final BigInteger[] p, final boolean c) {
        return c ? cat(new byte[] { (byte) (p[1].testBit(0) ? 3 : 2) }, pad(p[0])) : cat(new byte[] { 4 }, pad(p[0]), pad(p[1]));
    }
    private void pointItem(final int i) {
        final byte[] e = d("point", i, 2), x = shape(i, d("point", i, 1), e);
        final String[] net = NETS[i % 5];
        final boolean odd = (e[3] & 255) % 2 == 1;
        text(upper(hex(cat(new byte[] { (byte) (odd ? 3 : 2) }, x)), i));
        final BigInteger[] p = lift(new BigInteger(1, x), odd);
        pubAns(p, net);
        if (p == null) return;
        final String u = hex(format(p, false));
        text("ok"); text(hex(format(p, true))); text("ok"); text(u);
        for (int c = 1; c >= 0; c--) { text("ok"); text(b58check(cat(new byte[] { one(net[1]) }, Ripemd160.digest(sha.digest(format(p, c == 1)))))); }
        pubKey(p, net);
        pubAns(p, net);
        final String bad = edit(u, 2 + (e[4] & 255) % 128, HEX.charAt((e[5] & 255) % 16));
        final BigInteger bx = new BigInteger(bad.substring(2, 66), 16), by = new BigInteger(bad.substring(66), 16);
        text(bad);
        pubAns(bx.compareTo(P) < 0 && by.compareTo(P) < 0 && by.multiply(by).mod(P).equals(rhs(bx)) ? new BigInteger[] { bx, by } : null, net);
    }
    private BigInteger[] point(final String kind, final int i) {
        for (int j = 1; j <= 8; j++) {
            final BigInteger[] p = lift(new BigInteger(1, d(kind, i, j)), (d(kind, i, 9)[0] & 255) % 2 == 1);
            if (p != null) return p;
        }
        return null;
    }
    private void addItem(final int i) {
        final BigInteger[] p = point("adda", i), q0 = point("addb", i);
        if (p == null || q0 == null) { text("skip"); return; }
        final BigInteger[] q = i % 8 == 5 ? new BigInteger[] { p[0], P.subtract(p[1]).mod(P) } : i % 8 == 6 ? p
                : i % 8 == 7 ? new BigInteger[] { p[0].multiply(CUBE).mod(P), p[1] } : q0;
        final String[] net = NETS[i % 5];
        field(num(p[0])); field(num(p[1])); field(num(q[0])); field(num(q[1]));
        final BigInteger[] r = CurveOv.add(p, q, P);
        pubAns(r, net); pubKey(p, net); pubKey(q, net);
        pubAns(r, net); pubKey(q, net); pubKey(p, net);
    }
    private void pubItem(final int i) {
        final BigInteger k = new BigInteger(1, shape(i, d("pub", i, 1), d("pub", i, 2)));
        field(num(k));
        pubAns(inRange(k) ? CurveOv.mul(k, G, P) : null, NETS[i % 5]);
        privKey(k, "", "", NETS[i % 5]);
    }

    private static final Map<Value, byte[][]> LISTS = Collections.synchronizedMap(new IdentityHashMap<>());
    private byte[][] list(final int j) {
        final Value v = Ov.tup(lists).elems[j];
        byte[][] r = LISTS.get(v);
        if (r == null) {
            final Value[] w = Ov.tup(v).elems;
            r = new byte[w.length][];
            for (int i = 0; i < w.length; i++) r[i] = Ov.bytes(w[i]);
            if (LISTS.size() > 100) LISTS.clear();
            LISTS.put(v, r);
        }
        return r;
    }
    private static byte[] join(final int[] ix, final byte[][] l) {
        final ByteArrayOutputStream o = new ByteArrayOutputStream();
        for (int j = 0; j < ix.length; j++) { if (j > 0) o.write(' '); o.write(l[ix[j]], 0, l[ix[j]].length); }
        return o.toByteArray();
    }
    private int[] indices(final byte[] ent) {
        final BigInteger b = new BigInteger(1, cat(ent, new byte[] { sha.digest(ent)[0] }));
        final int total = 8 * (ent.length + 1);
        final int[] ix = new int[ent.length * 3 / 4];
        for (int j = 0; j < 11 * ix.length; j++) ix[j / 11] = 2 * ix[j / 11] + (b.testBit(total - 1 - j) ? 1 : 0);
        return ix;
    }
    private static byte[] entropy(final int[] ix) {
        final byte[] e = new byte[ix.length * 4 / 3];
        for (int j = 0; j < 8 * e.length; j++) e[j / 8] = (byte) (2 * e[j / 8] + ((ix[j / 11] >> (10 - j % 11)) & 1));
        return e;
    }
    private void seedItem(final int i) throws Exception {
        final byte[] d = d("seed", i, 1), e = d("seed", i, 2);
        final byte[][] l = list(i % 9);
        final int[] ix = indices(Arrays.copyOf(shape(i, d, e), SIZES[i % 5]));
        final byte[] t = join(ix, l), pass = ascii(hex(d("seed", i, 3)).substring(0, e[3] < 0 ? 0 : e[3] % 40));
        field(t); field(pass); text("ok"); field(HashesOv.seed(t, cat(ascii("mnemonic"), pass), 2048));
        ix[(e[4] & 255) % ix.length] = (e[5] & 255) % 8 * 256 + (e[6] & 255);
        final byte[] u = join(ix, l);
        field(u);
        if (Arrays.equals(indices(entropy(ix)), ix)) { text("ok"); field(HashesOv.seed(u, ascii("mnemonic"), 2048)); } else text("err");
    }

    @TLAPlusOperator(identifier = "BlockSum", module = "Sweep", warn = false)
    public static Value sum(final Value kind, final Value seed, final Value lists, final Value from, final Value n) throws Exception {
        final SweepOv s = new SweepOv(((StringValue) seed).getVal().toString(), lists);
        final String k = ((StringValue) kind).getVal().toString();
        for (int i = Ov.i(from); i < Ov.i(from) + Ov.i(n); i++)
            switch (k) {
                case "priv": s.privItem(i); break;
                case "arith": s.arithItem(i); break;
                case "point": s.pointItem(i); break;
                case "add": s.addItem(i); break;
                case "pub": s.pubItem(i); break;
                case "seed": s.seedItem(i); break;
                default: throw new RuntimeException("no such kind: " + k);
            }
        return Ov.seq(s.sha.digest(s.out.toByteArray()));
    }

    @TLAPlusOperator(identifier = "DrawnSum", module = "Sweep", warn = false)
    public static Value drawn(final Value kind, final Value lists, final Value from, final Value args) throws Exception {
        final SweepOv s = new SweepOv("", lists);
        final boolean gen = ((StringValue) kind).getVal().toString().equals("gen");
        int i = Ov.i(from);
        for (final Value v : Ov.tup(args).elems) {
            final byte[] a = Ov.bytes(v);
            if (gen) {
                final BigInteger k = new BigInteger(1, a);
                if (inRange(k)) { s.text("ok"); s.priv(k, NETS[i % 5]); } else s.text("skip");
            } else if (a.length == SIZES[i / 9 % 5]) { s.text("ok"); s.field(join(s.indices(a), s.list(i % 9))); } else s.text("skip");
            i++;
        }
        return Ov.seq(s.sha.digest(s.out.toByteArray()));
    }
}
