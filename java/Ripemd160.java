/** RIPEMD-160, which the JDK does not have. */
final class Ripemd160 {
    private static final int[] R1 = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
    private static final int[] R2 = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
    private static final int[] Z1 = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
    private static final int[] Z2 = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
    private static final int[] K1 = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
    private static final int[] K2 = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};

    private static int f(final int j, final int x, final int y, final int z) {
        switch (j) {
            case 0: return x ^ y ^ z;
            case 1: return (x & y) | (~x & z);
            case 2: return (x | ~y) ^ z;
            case 3: return (x & z) | (y & ~z);
            default: return x ^ (y | ~z);
        }
    }
    static byte[] digest(final byte[] m) {
        final byte[] p = new byte[((m.length + 8) / 64 + 1) * 64];
        System.arraycopy(m, 0, p, 0, m.length);
        p[m.length] = (byte) 0x80;
        final long bits = 8L * m.length;
        for (int i = 0; i < 8; i++) p[p.length - 8 + i] = (byte) (bits >>> (8 * i));
        final int[] h = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
        final int[] x = new int[16];
        for (int o = 0; o < p.length; o += 64) {
            for (int i = 0; i < 16; i++)
                x[i] = (p[o+4*i] & 255) | (p[o+4*i+1] & 255) << 8 | (p[o+4*i+2] & 255) << 16 | (p[o+4*i+3] & 255) << 24;
            final int[] a = h.clone(), b = h.clone();
            for (int t = 0; t < 80; t++) {
                final int j = t / 16;
                int n = Integer.rotateLeft(a[0] + f(j, a[1], a[2], a[3]) + x[Z1[t]] + K1[j], R1[t]) + a[4];
                a[0] = a[4]; a[4] = a[3]; a[3] = Integer.rotateLeft(a[2], 10); a[2] = a[1]; a[1] = n;
                n = Integer.rotateLeft(b[0] + f(4 - j, b[1], b[2], b[3]) + x[Z2[t]] + K2[j], R2[t]) + b[4];
                b[0] = b[4]; b[4] = b[3]; b[3] = Integer.rotateLeft(b[2], 10); b[2] = b[1]; b[1] = n;
            }
            final int n = h[1] + a[2] + b[3];
            h[1] = h[2] + a[3] + b[4]; h[2] = h[3] + a[4] + b[0]; h[3] = h[4] + a[0] + b[1]; h[4] = h[0] + a[1] + b[2]; h[0] = n;
        }
        final byte[] r = new byte[20];
        for (int i = 0; i < 20; i++) r[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
        return r;
    }
    private Ripemd160() {}
}
