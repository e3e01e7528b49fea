import java.security.MessageDigest;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public final class HashesOv {
    private static final String M = "Hashes";

    @TLAPlusOperator(identifier = "Sha256", module = M, warn = false)
    public static Value sha256(final Value m) throws Exception {
        return Ov.seq(MessageDigest.getInstance("SHA-256").digest(Ov.bytes(m)));
    }
    @TLAPlusOperator(identifier = "Sha512", module = M, warn = false)
    public static Value sha512(final Value m) throws Exception {
        return Ov.seq(MessageDigest.getInstance("SHA-512").digest(Ov.bytes(m)));
    }
    @TLAPlusOperator(identifier = "Ripemd160", module = M, warn = false)
    public static Value ripemd160(final Value m) { return Ov.seq(Ripemd160.digest(Ov.bytes(m))); }

    private static Mac mac(final byte[] key) throws Exception {
        final Mac mac = Mac.getInstance("HmacSHA512");
        mac.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, "HmacSHA512"));
        return mac;
    }
    @TLAPlusOperator(identifier = "HmacSha512", module = M, warn = false)
    public static Value hmac(final Value k, final Value m) throws Exception {
        return Ov.seq(mac(Ov.bytes(k)).doFinal(Ov.bytes(m)));
    }
    @TLAPlusOperator(identifier = "Pbkdf2", module = M, warn = false)
    public static Value pbkdf2(final Value pw, final Value salt, final Value rounds) throws Exception {
        return Ov.seq(seed(Ov.bytes(pw), Ov.bytes(salt), Ov.i(rounds)));
    }
    static byte[] seed(final byte[] pw, final byte[] salt, final int rounds) throws Exception {
        final Mac mac = mac(pw);
        mac.update(salt);
        byte[] u = mac.doFinal(new byte[] { 0, 0, 0, 1 });
        final byte[] t = u.clone();
        for (int i = 1; i < rounds; i++) {
            u = mac.doFinal(u);
            for (int j = 0; j < 64; j++) t[j] ^= u[j];
        }
        return t;
    }
}
