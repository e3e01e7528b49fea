import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public final class BigNatOv {
    private static final String M = "BigNat";
    @TLAPlusOperator(identifier = "Strip", module = M, warn = false)
    public static Value strip(final Value s) { return Ov.num(Ov.big(s)); }
    @TLAPlusOperator(identifier = "Pad", module = M, warn = false)
    public static Value pad(final Value a, final Value n) {
        final byte[] b = Ov.bytes(a);
        final int w = Ov.i(n);
        if (b.length >= w) return Ov.seq(b);
        final byte[] r = new byte[w];
        System.arraycopy(b, 0, r, w - b.length, b.length);
        return Ov.seq(r);
    }
    @TLAPlusOperator(identifier = "Nat2Big", module = M, warn = false)
    public static Value nat2big(final Value n) { return Ov.num(BigInteger.valueOf(Ov.i(n))); }
    @TLAPlusOperator(identifier = "Cmp", module = M, warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(Ov.big(a).compareTo(Ov.big(b))); }
    @TLAPlusOperator(identifier = "Add", module = M, warn = false)
    public static Value add(final Value a, final Value b) { return Ov.num(Ov.big(a).add(Ov.big(b))); }
    @TLAPlusOperator(identifier = "Sub", module = M, warn = false)
    public static Value sub(final Value a, final Value b) { return Ov.num(Ov.big(a).subtract(Ov.big(b))); }
    @TLAPlusOperator(identifier = "Mul", module = M, warn = false)
    public static Value mul(final Value a, final Value b) { return Ov.num(Ov.big(a).multiply(Ov.big(b))); }
    @TLAPlusOperator(identifier = "DivMod", module = M, warn = false)
    public static Value divmod(final Value a, final Value b) {
        final BigInteger[] r = Ov.big(a).divideAndRemainder(Ov.big(b));
        return new TupleValue(Ov.num(r[0]), Ov.num(r[1]));
    }
    @TLAPlusOperator(identifier = "Mod", module = M, warn = false)
    public static Value mod(final Value a, final Value b) { return Ov.num(Ov.big(a).mod(Ov.big(b))); }
    @TLAPlusOperator(identifier = "Bit", module = M, warn = false)
    public static Value bit(final Value a, final Value i) { return IntValue.gen(Ov.big(a).testBit(Ov.i(i)) ? 1 : 0); }
    @TLAPlusOperator(identifier = "BitLen", module = M, warn = false)
    public static Value bitlen(final Value a) { return IntValue.gen(Ov.big(a).bitLength()); }
    @TLAPlusOperator(identifier = "ModAdd", module = M, warn = false)
    public static Value modadd(final Value a, final Value b, final Value m) { return Ov.num(Ov.big(a).add(Ov.big(b)).mod(Ov.big(m))); }
    @TLAPlusOperator(identifier = "ModSub", module = M, warn = false)
    public static Value modsub(final Value a, final Value b, final Value m) { return Ov.num(Ov.big(a).subtract(Ov.big(b)).mod(Ov.big(m))); }
    @TLAPlusOperator(identifier = "ModMul", module = M, warn = false)
    public static Value modmul(final Value a, final Value b, final Value m) { return Ov.num(Ov.big(a).multiply(Ov.big(b)).mod(Ov.big(m))); }
    @TLAPlusOperator(identifier = "ModNeg", module = M, warn = false)
    public static Value modneg(final Value a, final Value m) { return Ov.num(Ov.big(a).negate().mod(Ov.big(m))); }
    @TLAPlusOperator(identifier = "ModExp", module = M, warn = false)
    public static Value modexp(final Value a, final Value e, final Value m) { return Ov.num(Ov.big(a).modPow(Ov.big(e), Ov.big(m))); }
    @TLAPlusOperator(identifier = "ModInv", module = M, warn = false)
    public static Value modinv(final Value a, final Value m) { return Ov.num(Ov.big(a).modInverse(Ov.big(m))); }
}
