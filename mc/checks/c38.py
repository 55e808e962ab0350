# One Rabin-Miller round, Fermat test
import mclib, ref

P = mclib.load('fmath.prime')


def strong(n, a):
    """ n odd, >= 3: is n a strong probable prime to base a """
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    x = pow(a, d, n)
    if x == 1 or x == n - 1:
        return 1
    for i in range(s - 1):
        x = x * x % n
        if x == n - 1:
            return 1
    return 0


def run(cx):
    def rm(n, a):
        cx.eq('rabin_miller(%d, %d)' % (n, a), strong(n, a), lambda: int(P.rabin_miller(n, a)))

    def fermat(n, a):
        cx.eq('fermat_little_test(%d, %d)' % (n, a), int(pow(a, n - 1, n) == 1), lambda: int(P.fermat_little_test(n, a)))

    limit = cx.thorough and 3002 or 1000
    cx.group('every odd number and every base')
    for n in range(3, limit, 2):
        if cx.take():
            for a in range(1, n):
                rm(n, a)
            for a in (0, -1, -2, 1 - n, -n, n, n + 1, 2 * n, 2 * n + 1, n * n + 1, 1 << 70):
                cx.refused('rabin_miller(%d, %d)' % (n, a), P.rabin_miller, n, a)
    cx.group('Fermat test')
    for n in range(2, cx.thorough and 500 or 260):
        if cx.take():
            for a in range(-3, n + 3):
                fermat(n, a)
    primes = ref.sieve(4000)
    carmichael = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601, 825265, 321197185,
                  5394826801, 232250619601, 9746347772161, 1436697831295441, 60977817398996785, 7156857700403137441]
    psi = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461]
    big = [(1 << k) - 1 for k in (13, 17, 19, 31, 61, 89, 107, 127, 521)]
    big += [ref.next_prime(1 << k) for k in (10, 15, 16, 31, 32, 33, 62, 63, 64, 65, 100, 128, 200, 256, 384)]
    big += [65537, 12289, 40961, 3 * 2 ** 30 + 1, 5 * 2 ** 55 + 1, 7 * 2 ** 120 + 1, 2 ** 255 - 19, 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 2 ** 224 - 2 ** 96 + 1]
    fermat_numbers = [(1 << (1 << k)) + 1 for k in range(1, 9)]

    def bases(n):
        b = set(primes[:14]) | set((1, 4, 9, 15, 16, 25, 32, 64, n // 2, n // 2 + 1, n - 1, n - 2, n - 3, n - 4, n - 5, (n - 1) // 4, n // 3))
        for p in ref.SMALL if hasattr(ref, 'SMALL') else ():
            b.add(p)
        d, s = n - 1, 0
        while d % 2 == 0:
            d, s = d // 2, s + 1
        # bases whose residues run through every height of the squaring chain
        for g in (2, 3, 5, 7, 11):
            for j in range(0, s + 1):
                b.add(pow(g, d << j, n))
                b.add(n - pow(g, d << j, n))
        return sorted(x for x in b if 1 <= x <= n - 1)
    cx.group('larger numbers')
    for n in carmichael + psi + big + fermat_numbers:
        if cx.take():
            for a in bases(n):
                rm(n, a)
                fermat(n, a)
            for a in (0, -1, n, n + 1, -n, n - n, n * n):
                cx.refused('rabin_miller(%d, %d)' % (n, a), P.rabin_miller, n, a)
    cx.group('products, squares and cubes')
    for i, p in enumerate(primes[1:cx.thorough and 300 or 120]):
        if cx.take():
            for n in (p * p, p ** 3, p * primes[i + 2], p * (2 * p - 1), p * (3 * p - 2), p * (4 * p - 3), 3 * p * primes[i + 5]):
                for a in bases(n):
                    rm(n, a)
    cx.group('products of primes with a high power of two in p-1')
    high = [97, 193, 257, 641, 769, 12289, 40961, 65537, 114689, 786433, 5767169, 7340033, 23068673, 167772161, 2013265921, 3221225473, 75161927681, 206158430209, 6597069766657,
            5 * 2 ** 55 + 1, (1 << 64) - (1 << 32) + 1, 7 * 2 ** 120 + 1, 2 ** 251 + 17 * 2 ** 192 + 1]

    def generator(p):
        """ of the subgroup whose order is the power of two in p-1, and that order's logarithm """
        e, s = 0, p - 1
        while s % 2 == 0:
            e, s = e + 1, s // 2
        z = 2
        while ref.euler(z, p) != -1:
            z += 1
        return pow(z, s, p), e
    gens = [generator(p) for p in high]
    for i in range(len(high)):
        for j in range(i):
            if not cx.take():
                continue
            p, q = high[i], high[j]
            (g, e), (h, f) = gens[i], gens[j]
            n, u, v = p * q, q * ref.modinv(q, p), p * ref.modinv(p, q)
            # the element that is a mod p and b mod q, for a and b of every order 2^k (or the largest 12)
            A = [1] + [pow(g, 1 << k, p) for k in range(e)][::-1]
            B = [1] + [pow(h, 1 << k, q) for k in range(f)][::-1]
            w = range(0, 4) if not cx.thorough else range(0, 12)
            for k in sorted(set([x for x in w if x <= e] + [e - 1, e])):
                for l in sorted(set([x for x in w if x <= f] + [f - 1, f])):
                    a = (A[k] * u + B[l] * v) % n
                    rm(n, a)
                    rm(n, a * pow(3, 1 << max(e, f), n) % n)
    cx.group('one prime with a high power of two in p-1')
    for i in range(len(high)):
        for k in range(gens[i][1] + 1):
            if cx.take():
                rm(high[i], pow(gens[i][0], 1 << k, high[i]))
                rm(high[i], 3 * pow(gens[i][0], 1 << k, high[i]) % high[i])
    cx.group('every prime, the first bases')
    for p in primes[1:]:
        if cx.take():
            for a in [x for x in (1, 2, 3, 5, 7, 11, 13, p // 2, p - 2, p - 1) if 1 <= x < p]:
                rm(p, a)
    cx.group('integer types')
    if cx.take():
        for n in (3L, 9L, 13L, 561L, 7919L):
            for a in (1L, 2L, long(n - 1)):
                rm(n, a)
                rm(int(n), a)
                rm(n, int(a))
