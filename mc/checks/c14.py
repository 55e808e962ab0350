# The 802.11i pseudorandom function
import mclib, standins, ref


def run(cx):
    M = standins.keyed('prf_dot11')
    f = M.PRF
    K, A, D = ref.octets(16, 1), 'prefix', ref.octets(20, 2)

    def one(desc, key, prefix, data, bits):
        if cx.take():
            cx.eq(desc, ref.dot11_prf(key, prefix, data, bits), f, key, prefix, data, bits)

    top = ''.join([ref.hmac_sha1(K, A + '\0' + D + chr(i)) for i in range(256)])
    cx.group('every multiple of eight bits')
    for n in range(0, 5121):
        if cx.take():
            cx.eq('%d bits' % (8 * n), top[:n], f, K, A, D, 8 * n)
    cx.group('other bit counts')
    for n in range(0, 1300):
        if n % 8 and cx.take():
            cx.refused('%d bits' % n, f, K, A, D, n)
    for n in (4097, 8191, 40953, 40959, 40961, 160 * 3 + 4):
        if cx.take():
            cx.refused('%d bits' % n, f, K, A, D, n)
    cx.group('every key length from 0 to 200')
    for n in range(201):
        for bits in (128, 160, 512):
            one('key of %d, %d bits' % (n, bits), ref.octets(n, n), A, D, bits)
    cx.group('every prefix length from 0 to 150')
    for n in range(151):
        one('prefix of %d' % n, K, ref.octets(n, n), D, 384)
    cx.group('every data length from 0 to 300')
    for n in range(301):
        one('data of %d' % n, K, A, ref.octets(n, n), 384)
    for n in (511, 512, 1024, 65536):
        one('data of %d' % n, K, A, ref.octets(n, n), 384)
    cx.group('longer keys, prefixes and data')
    for n in range(201, 1100, cx.thorough and 1 or 3) + [256, 257, 511, 512, 513, 1023, 1024, 2048, 4096, 8192, 65535, 65536, 65537]:
        one('key of %d' % n, ref.octets(n, n), A, D, 384)
        one('prefix of %d' % n, K, ref.octets(n, n), D, 384)
        one('data of %d' % n, K, A, ref.octets(n, n), 384)
    cx.group('every length of the data and of the prefix together')
    for n in range(0, 67):
        for m in range(0, 67):
            if (n + m) % 3 == 0 or n + m in (62, 63, 64, 65) or cx.thorough:
                one('prefix of %d, data of %d' % (n, m), K, ref.octets(n, n), ref.octets(m, m), 168)
    cx.group('fixed sizes with longer parts')
    for bits in (128, 192, 256, 384, 512, 768):
        g = getattr(M, 'PRF_%d' % bits)
        for n in (63, 64, 65, 76, 127, 128, 256, 1024, 4096):
            for k, p, d in ((ref.octets(n, 1), A, D), (K, ref.octets(n, 2), D), (K, A, ref.octets(n, 3)), (ref.octets(n, 1), ref.octets(n, 2), ref.octets(n, 3))):
                if cx.take():
                    cx.eq('%d bits, lengths %d %d %d' % (bits, len(k), len(p), len(d)), ref.dot11_prf(k, p, d, bits), g, k, p, d)
    cx.group('forms')
    for k in ('', '\0', 64 * '\0', 65 * '\0', 20 * '\xff', 20 * '\x0b', 80 * '\xaa'):
        for p in ('', '\0', 'Pairwise key expansion', 'prefix\0', '\0prefix', 'abc\n'):
            for d in ('', '\0', 'data\0', '\0data', 76 * '\xff', 'data\1'):
                for bits in (8, 160, 168, 512):
                    one('%r, %r, %r, %d' % (k[:2], p, d[:5], bits), k, p, d, bits)
    cx.group('every octet value')
    for v in range(256):
        one('key %d' % v, 16 * chr(v), A, D, 320)
        one('prefix %d' % v, K, chr(v), D, 320)
        one('data %d' % v, K, A, chr(v), 320)
    cx.group('fixed sizes')
    for bits in (128, 192, 256, 384, 512, 768):
        g = getattr(M, 'PRF_%d' % bits)
        for i in range(40):
            if cx.take():
                k, p, d = ref.octets(i, i), ref.octets(i % 23, i + 1), ref.octets(2 * i, i + 2)
                cx.eq('%d bits, case %d' % (bits, i), ref.dot11_prf(k, p, d, bits), g, k, p, d)
    cx.group('sequences of calls')
    calls = [(K, A, D, 128), (K, A, D, 512), (K, 'prefiX', D, 128), (K, A, D + '\0', 128), ('k', A, D, 128), (K, A, D, 0), (K, A + 'x', D[1:], 128)]
    for a in range(7):
        for b in range(7):
            for c in range(7):
                if cx.take():
                    for step, x in enumerate((a, b, c)):
                        cx.eq('calls %d %d %d, step %d' % (a, b, c, step + 1), ref.dot11_prf(*calls[x]), f, *calls[x])
