import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Point addition and multiplication on y^2 = x^3 + b, affine and Jacobian. */
public final class CurveOv {
    private static final String M = "Curve";
    private static final BigInteger TWO = BigInteger.TWO, THREE = BigInteger.valueOf(3);

    private static BigInteger[] pt(final Value v) {
        final TupleValue t = Ov.tup(v);
        return t.elems.length == 0 ? null : new BigInteger[] { Ov.big(t.elems[0]), Ov.big(t.elems[1]) };
    }
    private static Value val(final BigInteger[] p) {
        return p == null ? TupleValue.EmptyTuple : new TupleValue(Ov.num(p[0]), Ov.num(p[1]));
    }
    static BigInteger[] add(final BigInteger[] p, final BigInteger[] q, final BigInteger m) {
        if (p == null) return q;
        if (q == null) return p;
        final BigInteger l;
        if (!p[0].equals(q[0])) l = q[1].subtract(p[1]).multiply(q[0].subtract(p[0]).modInverse(m)).mod(m);
        else if (p[1].equals(q[1]) && p[1].signum() != 0)
            l = THREE.multiply(p[0]).multiply(p[0]).multiply(p[1].add(p[1]).modInverse(m)).mod(m);
        else return null;
        final BigInteger x = l.multiply(l).subtract(p[0]).subtract(q[0]).mod(m);
        return new BigInteger[] { x, l.multiply(p[0].subtract(x)).subtract(p[1]).mod(m) };
    }
    /* Jacobian doubling, for a = 0 */
    private static BigInteger[] dbl(final BigInteger[] p, final BigInteger m) {
        if (p == null || p[1].signum() == 0) return null;
        final BigInteger y2 = p[1].multiply(p[1]).mod(m);
        final BigInteger s = p[0].multiply(y2).shiftLeft(2).mod(m);
        final BigInteger k = p[0].multiply(p[0]).multiply(THREE).mod(m);
        final BigInteger x = k.multiply(k).subtract(s.shiftLeft(1)).mod(m);
        final BigInteger y = k.multiply(s.subtract(x)).subtract(y2.multiply(y2).shiftLeft(3)).mod(m);
        return new BigInteger[] { x, y, p[1].multiply(p[2]).shiftLeft(1).mod(m) };
    }
    /* Jacobian p plus affine q */
    private static BigInteger[] mix(final BigInteger[] p, final BigInteger[] q, final BigInteger m) {
        if (p == null) return new BigInteger[] { q[0], q[1], BigInteger.ONE };
        final BigInteger z2 = p[2].multiply(p[2]).mod(m);
        final BigInteger h = q[0].multiply(z2).subtract(p[0]).mod(m);
        final BigInteger r = q[1].multiply(z2).multiply(p[2]).subtract(p[1]).mod(m);
        if (h.signum() == 0) return r.signum() == 0 ? dbl(p, m) : null;
        final BigInteger h2 = h.multiply(h).mod(m), h3 = h2.multiply(h).mod(m), u = p[0].multiply(h2).mod(m);
        final BigInteger x = r.multiply(r).subtract(h3).subtract(u.shiftLeft(1)).mod(m);
        final BigInteger y = r.multiply(u.subtract(x)).subtract(p[1].multiply(h3)).mod(m);
        return new BigInteger[] { x, y, p[2].multiply(h).mod(m) };
    }
    @TLAPlusOperator(identifier = "EcAdd", module = M, warn = false)
    public static Value ecadd(final Value p, final Value q, final Value m) { return val(add(pt(p), pt(q), Ov.big(m))); }

    @TLAPlusOperator(identifier = "EcMul", module = M, warn = false)
    public static Value ecmul(final Value kv, final Value pv, final Value mv) {
        return val(mul(Ov.big(kv), pt(pv), Ov.big(mv)));
    }
    static BigInteger[] mul(final BigInteger k, final BigInteger[] p, final BigInteger m) {
        if (p == null) return null;
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = dbl(r, m);
            if (k.testBit(i)) r = mix(r, p, m);
        }
        if (r == null) return null;
        final BigInteger zi = r[2].modInverse(m), zi2 = zi.multiply(zi).mod(m);
        return new BigInteger[] { r[0].multiply(zi2).mod(m), r[1].multiply(zi2).multiply(zi).mod(m) };
    }
}
