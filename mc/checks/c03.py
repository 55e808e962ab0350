# Poly1305 tags against the polynomial of RFC 7539 2.5
import mclib, ref

P = ref.P1305


def run(cx):
    M = mclib.load('cipher.chacha_poly')
    mac = M.poly1305_mac

    def one(msg, key, desc):
        if cx.take():
            cx.eq(desc, ref.poly1305(msg, key), mac, msg, key)

    K = ref.octets(32, 3)
    rs = [('zero', 16 * '\0'), ('one', ref.le(1, 16)), ('two', ref.le(2, 16)), ('four', ref.le(4, 16)), ('ones', 16 * '\xff'),
          ('top', 12 * '\0' + '\xff\xff\xff\x0f'), ('pattern', K[:16])]
    ss = [('zero', 16 * '\0'), ('one', ref.le(1, 16)), ('ones', 16 * '\xff'), ('half', 15 * '\0' + '\x80'), ('pattern', K[16:])]

    cx.group('every length from 0 to 520')
    for n in range(521):
        one(ref.octets(n, n), K, 'length %d' % n)
        one(n * '\xff', 16 * '\xff' + 16 * '\xff', 'ones of length %d' % n)
        one(n * '\0', K, 'zeros of length %d' % n)
    cx.group('long messages')
    for n in (1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537, 131073, 1 << 20):
        one(ref.octets(n, n), K, 'length %d' % n)
    cx.group('every single bit of the key')
    for m, msg in enumerate((ref.octets(33, 1), 16 * '\xff', '', '\x01')):
        for i in range(256):
            one(msg, ref.le(1 << i, 32), 'message %d, bit %d' % (m, i))
            one(msg, ref.le(((1 << 256) - 1) ^ (1 << i), 32), 'message %d, all but bit %d' % (m, i))
    cx.group('every single bit of the message')
    for n in (1, 15, 16, 17, 32, 33):
        for i in range(8 * n):
            for rn, r in (('one', ref.le(1, 16)), ('pattern', K[:16])):
                one(ref.le(1 << i, n), r + K[16:], 'length %d, bit %d, r %s' % (n, i, rn))
    cx.group('trailing and leading zeros')
    for n in range(1, 50):
        for z in range(1, 18):
            one(ref.octets(n, n) + z * '\0', K, 'length %d and %d zeros' % (n, z))
            one(z * '\0' + ref.octets(n, n), K, '%d zeros and length %d' % (z, n))
    cx.group('accumulator boundaries')
    targets = sorted(set([(t + d) % P for t in (0, 1 << 64, 1 << 128, 1 << 129, 3 << 128, P) for d in range(-6, 7)] +
                         [((1 << 128) * k - x + d) % P for k in (1, 2, 3, 4) for x in (1, 0x80) for d in (-1, 0, 1)]))
    prefixes = ['', 16 * '\0', 16 * '\xff', 32 * '\xff', ref.octets(16, 1), ref.octets(32, 2), 48 * '\xff', 64 * '\0',
                ref.octets(16, 7), ref.octets(16, 8), ref.octets(48, 9)]
    for rn, r in rs[1:]:
        rv = ref.num_le(r) & 0x0ffffffc0ffffffc0ffffffc0fffffff
        inv = ref.modinv(rv, P)
        for pi, pre in enumerate(prefixes):
            acc = (ref.num_le(ref.poly1305(pre, r + 16 * '\0'))) if False else None
            acc = 0
            for i in range(0, len(pre), 16):
                acc = (acc + ref.num_le(pre[i:i + 16]) + (1 << 128)) * rv % P
            for t in targets:
                for size in (16, 15, 1):
                    # last block so that the accumulator ends at t
                    n = (t * inv - acc) % P - (1 << (8 * size))
                    if 0 <= n < (1 << (8 * size)):
                        for sn, s in ss:
                            one(pre + ref.le(n, size), r + s, 'r %s, prefix %d, accumulator %#x, last block of %d, s %s' % (rn, pi, t, size, sn))
    cx.group('sum with s at its carries')
    for msg in ('', '\0', ref.octets(16, 4), ref.octets(40, 5)):
        a = ref.num_le(ref.poly1305(msg, K[:16] + 16 * '\0'))
        for want in [0, 1, (1 << 128) - 1, 1 << 127] + [1 << (8 * i) for i in range(16)] + [(1 << (8 * i)) - 1 for i in range(1, 16)]:
            one(msg, K[:16] + ref.le((want - a) % (1 << 128), 16), 'length %d, tag %#x' % (len(msg), want))
    cx.group('many keys and messages')
    for i in range(cx.thorough and 600000 or 24000):
        one(ref.octets(i % 67, 100 + i), ref.octets(32, 900 + i), 'case %d' % i)
    if cx.thorough:
        cx.group('every length from 521 to 4200')
        for n in range(521, 4201):
            one(ref.octets(n, n), K, 'length %d' % n)
        cx.group('two bits of r and message')
        for i in range(128):
            for j in range(128):
                one(ref.le(1 << j, 16), ref.le(1 << i, 32), 'r bit %d, message bit %d' % (i, j))
