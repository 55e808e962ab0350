# Jacobi and Legendre symbols
import mclib, ref

N = mclib.load('ecc.numbertheory')


def run(cx):
    primes = ref.sieve(2100)
    factors = {}
    for n in range(3, 2000, 2):
        f, m = [], n
        for q in primes:
            while m % q == 0:
                f.append(q)
                m //= q
        factors[n] = f
    leg = {}

    def legendre(a, q):
        if q not in leg:
            leg[q] = [0] + (q - 1) * [-1]
            for x in range(1, q):
                leg[q][x * x % q] = 1
        return leg[q][a % q]

    cx.group('jacobi, every odd n')
    for n in range(3, cx.thorough and 2000 or 702, 2):
        if cx.take():
            want = []
            for a in range(n):
                v = 1
                for q in factors[n]:
                    v *= legendre(a, q)
                want.append(v)
            for a in range(-n - 2, 2 * n + 3):
                cx.eq('jacobi(%d, %d)' % (a, n), want[a % n], N.jacobi, a, n)
            cx.eq('jacobi(%dL, %dL)' % (2, n), want[2 % n], N.jacobi, 2L, long(n))
    cx.group('jacobi, refused')
    for n in [-9, -7, -3, -2, -1, 0, 1, 2] + range(4, 600, 2) + [1 << 64, (1 << 64) - 2, -(1 << 64) - 1]:
        for a in (-1, 0, 1, 2, 3, 7, n - 1, n, n + 1):
            if cx.take():
                cx.refused('jacobi(%d, %d)' % (a, n), N.jacobi, a, n)
    cx.group('jacobi, large arguments')
    big = [(1 << k) + e for k in (15, 16, 31, 32, 33, 63, 64, 65, 128, 192, 256, 521) for e in (-3, -1, 1, 3)] + [(1 << 127) - 1, (1 << 61) - 1]
    big += [ref.num_be(ref.octets(k, k)) | 1 for k in (5, 8, 9, 16, 24, 32, 48, 66)]
    big += [3 ** 40, 5 ** 30 * 7, 3 ** 20 * 11 ** 20, 1231 ** 2 * 1237]
    args = [-(1 << 70), -7, -5, -3, -2, -1, 0, 1, 2, 3, 5, 6, 7, 8, 10, 12, 15, 1 << 31, 1 << 63, 1 << 64, (1 << 64) - 1, 3 << 50, 3 ** 41, 11 ** 7]
    for n in big:
        for a in args + [n - 1, n - 2, n + 1, n + 2, 2 * n, 2 * n - 1, n // 2, n // 3, n * n + 4, 3 * n, 5 * n + 3] + big[:: cx.thorough and 1 or 5]:
            if cx.take():
                cx.eq('jacobi(%d, %d)' % (a, n), ref.jacobi(a, n), N.jacobi, a, n)
    cx.group('jacobi, sizes of machine words and floats')
    edge = []
    for k in (8, 15, 16, 20, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 40, 48, 52, 53, 54, 61, 62, 63, 64, 65):
        edge += [(1 << k) - 1, (1 << k) + 1, (1 << k) - 5, 3 << (k - 1), 1 << k]
    for n in edge:
        if n % 2 and cx.take():
            for a in edge:
                for b in (a, -a):
                    cx.eq('jacobi(%d, %d)' % (b, n), ref.jacobi(b, n), N.jacobi, b, n)
    cx.group('jacobi, longest recursions')
    f = [1, 1]
    while len(f) < 700:
        f.append(f[-1] + f[-2])
    for k in range(3, 700, cx.thorough and 1 or 2):
        for a, n in ((f[k - 1], f[k]), (f[k - 2], f[k]), (f[k] - f[k - 3], f[k])):
            if n % 2 and n > 2 and cx.take():
                cx.eq('Fibonacci jacobi(%d, %d)' % (a, n), ref.jacobi(a, n), N.jacobi, a, n)
    cx.group('jacobi, thousands of bits')
    while len(f) < 9000:
        f.append(f[-1] + f[-2])
    for k in (701, 1000, 1500, 2000, 3001, 4000, 6001, 8000, 8999):
        for a, n in ((f[k - 1], f[k]), (f[k - 2], f[k]), (f[k] - f[k - 3], f[k]), (-f[k - 1], f[k])):
            if n % 2 and cx.take():
                cx.eq('Fibonacci jacobi, %d' % k, ref.jacobi(a, n), N.jacobi, a, n)
    for k in (1024, 2048, 2203, 3072, 3217, 4096, 4253, 8192):
        for n in ((1 << k) - 1, (1 << k) + 1, ref.num_be(ref.octets(k // 8, 5)) | 1):
            for a in (-1, 2, 3, -7, n - 2, n // 2, n // 3, n * 5 // 8, ref.num_be(ref.octets(k // 8, 6)), (1 << k // 2) - 1, (1 << k // 2) + 1):
                if cx.take():
                    cx.eq('jacobi of %d bits, n %x, a %x' % (k, n, a), ref.jacobi(a, n), N.jacobi, a, n)
    cx.group('jacobi, multiplicative')
    for n in range(3, cx.thorough and 160 or 64, 2):
        if cx.take():
            for a in range(-6, 24):
                for b in range(-6, 24):
                    d = '(%d * %d, %d)' % (a, b, n)
                    cx.true('in a, ' + d, lambda: N.jacobi(a * b, n) == N.jacobi(a, n) * N.jacobi(b, n))
            for m in range(3, 64, 2):
                for a in range(1, 16):
                    cx.true('in n, (%d, %d * %d)' % (a, n, m), lambda: N.jacobi(a, m * n) == N.jacobi(a, m) * N.jacobi(a, n))
    cx.group('legendre_symbol')
    for p in primes[1:]:
        if p < (cx.thorough and 2000 or 700) and cx.take():
            for a in range(-p - 2, 2 * p + 3):
                cx.eq('legendre_symbol(%d, %d)' % (a, p), legendre(a, p), N.legendre_symbol, a, p)
    cx.group('wide a, small n')
    for k in (100, 129, 256, 320, 512, 521, 640, 768, 1000, 1024, 2048, 3000, 4096, 5000):
        for n in (3, 5, 7, 9, 11, 15, 21, 101, 257, 65537, (1 << 31) - 1, (1 << 61) - 1, (1 << 89) - 1, 3 ** 40):
            if cx.take():
                for r in (0, 1, 2, 3, 5, n - 1, n - 2):
                    for a in (r + n << k, r + (n << k), r - (n << k), (1 << k) + r, -(1 << k) - r, ref.num_be(ref.octets(k // 8, 5)) + r):
                        cx.eq('jacobi(%d, %d)' % (a, n), ref.jacobi(a, n), N.jacobi, a, n)
                        if n in (3, 5, 7, 11, 101, 257, 65537) or n > 1 << 30 and n % 3:
                            cx.eq('legendre_symbol(%d, %d)' % (a, n), ref.jacobi(a, n), N.legendre_symbol, a, n)
    for p in ((1 << 31) - 1, (1 << 61) - 1, (1 << 127) - 1, (1 << 521) - 1, (1 << 224) - (1 << 96) + 1, (1 << 255) - 19, 65537, 998244353):
        for a in args + [p - 1, p, p + 1, 2 * p, -p, p - 4, p * p + 9]:
            if cx.take():
                cx.eq('legendre_symbol(%d, %d)' % (a, p), ref.jacobi(a, p), N.legendre_symbol, a, p)
