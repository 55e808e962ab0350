# Inverses, powers, gcd and lcm
import mclib, ref
from java.math import BigInteger

N = mclib.load('ecc.numbertheory')
G = mclib.load('fmath.galoisfield')


def run(cx):
    def inverse(a, m):
        d = 'inverse_mod(%d, %d)' % (a, m)
        coprime = ref.gcd(a % m, m) == 1
        for mod, d in ((N, d), (G, 'galoisfield ' + d)):
            if not coprime:
                cx.refused(d, mod.inverse_mod, a, m)
                continue
            r = cx.call(d, mod.inverse_mod, a, m)
            cx.ok(d, not isinstance(r, mclib.Raised) and 1 <= r < m and r * a % m == 1, r, 'the inverse')

    def egcd(a, b):
        d = 'egcd(%d, %d)' % (a, b)
        r = cx.call(d, G.egcd, a, b)
        cx.ok(d, not isinstance(r, mclib.Raised) and len(r) == 3 and r[0] == ref.gcd(a, b) == r[1] * a + r[2] * b, r, 'g, x and y with g = x * a + y * b the greatest common divisor')

    def lcm2(a, b):
        return a // ref.gcd(a, b) * b

    cx.group('inverse_mod, every small modulus')
    for m in range(2, cx.thorough and 900 or 330):
        if cx.take():
            for a in range(-m - 1, 2 * m + 2):
                inverse(a, m)
    cx.group('inverse_mod, large')
    C = mclib.load('ecc.curves')
    mods = sorted(set([c.p for c in C.allCurves] + [c.n for c in C.allCurves]))
    mods += [1 << k for k in (31, 32, 63, 64, 128, 521)] + [(1 << k) - 1 for k in (31, 32, 63, 64, 128, 256)] + [3 ** 50, 10 ** 40, 2 * 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23 * 29]
    f = [1, 2]
    while len(f) < 500:
        f.append(f[-1] + f[-2])
    mods += f[40:500:23]
    for m in mods:
        for a in [0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3, m - 1, m - 2, m + 1, m + 2, m, -m, 2 * m, m // 2, m // 2 + 1, m // 3, 1 << 64, (1 << 64) - 1, -(1 << 200), m * m + 2] + \
                [ref.num_be(ref.octets(1 + m.bit_length() // 8, i)) for i in range(cx.thorough and 100 or 6)] + [x for x in f[38:499:23] if x < m]:
            if cx.take():
                inverse(a, m)
    cx.group('inverse_mod, gcd and modular_exp, thousands of bits')
    long_ = [1, 2]
    while len(long_) < 9000:
        long_.append(long_[-1] + long_[-2])
    for k in (1000, 1500, 3000, 6000, 8998):
        if cx.take():
            inverse(long_[k - 1], long_[k])
            inverse(-long_[k - 2], long_[k])
            egcd(long_[k], long_[k - 1])
            cx.eq('gcd2 of Fibonacci numbers, %d' % k, 1, getattr(N, 'gcd2', N.gcd), long_[k], long_[k - 1])
            cx.eq('gcd of multiples of Fibonacci numbers, %d' % k, 15, N.gcd, 15 * long_[k], 15 * long_[k - 1])
            cx.eq('lcm of Fibonacci numbers, %d' % k, long_[k] * long_[k - 1], N.lcm, [long_[k], long_[k - 1]])
    for k in (1023, 1024, 1025, 2048, 2203, 3072, 4096, 4253):
        for m in ((1 << k) - 1, 1 << k, ref.num_be(ref.octets(k // 8, 5)) | 1):
            if cx.take():
                for a in (3, -2, m - 1, m // 2, ref.num_be(ref.octets(k // 8, 6)), (1 << k // 2) - 1):
                    inverse(a, m)
                    for e in (2, 65537, 1 << 70):
                        w = long(str(BigInteger(str(a)).modPow(BigInteger(str(e)), BigInteger(str(m)))))
                        cx.eq('modular_exp of %d bits, (%x, %d, %x)' % (k, a, e, m), w, N.modular_exp, a, e, m)
    for k in (100, 129, 256, 521, 640, 1024, 2048, 4100):
        for m in (2, 3, 5, 8, 9, 30, 101, 257, 65536, 65537, (1 << 31) - 1, (1 << 61) - 1):
            if cx.take():
                for a in ((m << k) + 1, (m << k) - 1, -(m << k) - 2, 1 << k, (1 << k) - 1, ref.num_be(ref.octets(k // 8, 5))):
                    inverse(a, m)
                    for e in (2, 7, 1 << 70):
                        cx.eq('modular_exp(%d, %d, %d)' % (a, e, m), long(str(BigInteger(str(a)).modPow(BigInteger(str(e)), BigInteger(str(m))))), N.modular_exp, a, e, m)
                    if a > 0:
                        cx.eq('modular_exp(%d, %d, %d)' % (3, a, m), long(str(BigInteger('3').modPow(BigInteger(str(a)), BigInteger(str(m))))), N.modular_exp, 3, a, m)
                        cx.eq('gcd(%d, %d)' % (a, m), ref.gcd(a, m), N.gcd, a, m)
                        cx.eq('lcm(%d, %d)' % (m, a), lcm2(m, a), N.lcm, m, a)
    cx.group('modular_exp, small')
    for m in range(2, cx.thorough and 130 or 62):
        if cx.take():
            for b in range(-m - 1, m + 3):
                w = 1 % m
                for e in range(0, 26):
                    cx.eq('modular_exp(%d, %d, %d)' % (b, e, m), w, N.modular_exp, b, e, m)
                    w = w * b % m
                for e in (-1, -2, -7, -(1 << 64)):
                    cx.refused('modular_exp(%d, %d, %d)' % (b, e, m), N.modular_exp, b, e, m)
    cx.group('modular_exp, large')
    for i, m in enumerate(mods):
        if i % 3 and not cx.thorough:
            continue
        for b in (0, 1, 2, 3, -2, m - 1, m + 5, ref.num_be(ref.octets(30, i)), m // 2):
            for e in (0, 1, 2, 3, m - 1, m, m - 2, (1 << 64), (1 << 31) - 1, ref.num_be(ref.octets(20, i)), -1, -m):
                if cx.take():
                    d = 'modular_exp(%d, %d, %d)' % (b, e, m)
                    if e < 0:
                        cx.refused(d, N.modular_exp, b, e, m)
                    else:
                        cx.eq(d, long(str(BigInteger(str(b)).modPow(BigInteger(str(e)), BigInteger(str(m))))), N.modular_exp, b, e, m)

    def many(xs):
        g, l = xs[0], xs[0]
        for x in xs[1:]:
            g, l = ref.gcd(g, x), lcm2(l, x)
        d = repr(xs)
        cx.eq('gcd of %s' % d, g, N.gcd, *xs)
        cx.eq('lcm of %s' % d, l, N.lcm, *xs)
        cx.eq('gcd of the list %s' % d, g, N.gcd, list(xs))
        cx.eq('lcm of the list %s' % d, l, N.lcm, list(xs))
        cx.eq('gcd of the tuple %s' % d, g, N.gcd, tuple(xs))
        cx.eq('lcm of the tuple %s' % d, l, N.lcm, tuple(xs))
        if len(xs) == 2:
            egcd(*xs)
            cx.eq('gcd2 of %s' % d, g, getattr(N, 'gcd2', N.gcd), *xs)
            cx.eq('lcm2 of %s' % d, l, getattr(N, 'lcm2', N.lcm), *xs)

    cx.group('gcd and lcm, pairs')
    for a in range(1, cx.thorough and 400 or 120):
        if cx.take():
            for b in range(1, cx.thorough and 400 or 120):
                many([a, b])
    cx.group('gcd and lcm, one to five numbers')
    for a in range(1, 70):
        if cx.take():
            many([a])
            egcd(a, 0)
            egcd(0, a)
    small = range(1, 17)
    for a in small:
        for b in small:
            if cx.take():
                for c in small:
                    many([a, b, c])
    alpha = [1, 2, 4, 6, 9, 10, 12]
    for a in alpha:
        for b in alpha:
            if cx.take():
                for c in alpha:
                    for d in alpha:
                        many([a, b, c, d])
                        if cx.thorough or d < 7:
                            for e in alpha:
                                many([a, b, c, d, e])
    cx.group('gcd and lcm, large')
    big = [1, 2, 6, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 64, 3 ** 41, 2 ** 40 * 3 ** 20, 10 ** 30, (1 << 127) - 1, ((1 << 61) - 1) * ((1 << 31) - 1), ((1 << 61) - 1) * 6,
           f[100], f[101], f[300], f[299], ref.num_be(ref.octets(40, 1)), ref.num_be(ref.octets(40, 1)) * 35]
    for a in big:
        for b in big:
            if cx.take():
                many([a, b])
                for c in big[::3]:
                    many([a, b, c])
    cx.group('gcd and lcm, sizes of machine words and floats')
    edge = []
    for k in (8, 15, 16, 20, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 40, 48, 52, 53, 54, 61, 62, 63, 64, 65):
        edge += [(1 << k) - 1, (1 << k) + 1, (1 << k) - 5, 3 << (k - 1)]
    for a in edge:
        if cx.take():
            for b in edge:
                many([a, b])
    cx.group('inverse_mod and modular_exp, sizes of machine words and floats')
    for m in edge:
        if cx.take():
            for a in edge:
                inverse(a, m)
                inverse(-a, m)
                w = long(str(BigInteger(str(a)).modPow(BigInteger(str(m - 2)), BigInteger(str(m)))))
                cx.eq('modular_exp(%d, %d, %d)' % (a, m - 2, m), w, N.modular_exp, a, m - 2, m)
