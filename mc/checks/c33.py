# Primality and next_prime
import mclib, ref

N = mclib.load('ecc.numbertheory')


def run(cx):
    limit = cx.thorough and 2000000 or 150000
    primes = ref.sieve(limit)
    pset = set(primes)

    def prime(n, want):
        cx.eq('is_prime(%d)' % n, want, lambda: bool(N.is_prime(n)))

    cx.group('every small integer')
    for part in range(-200, limit, 500):
        if cx.take():
            for n in range(part, min(limit, part + 500)):
                prime(n, n in pset)
    if cx.take():
        cx.eq('smallprimes', ref.sieve(1230), lambda: list(N.smallprimes))
        for n in (-(1 << 64), -(1 << 127) + 1, -7919, -3L, 0L, 1L):
            prime(n, False)
        for n in (2L, 3L, 1229L, 1231L, 7919L):
            prime(n, True)
    cx.group('strong pseudoprimes to the first primes')
    psi = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461]
    more = [3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1530787, 1987021, 2284453, 3116107, 5173601, 6787327,
            11541307, 13694761, 15978007, 16070429, 16879501, 161304001, 960946321, 1157839381, 3697278427, 5764643587, 6770862367, 14386156093, 15579919981, 18459366157,
            19887974881, 21276028621, 118670087467, 307768373641, 315962312077, 354864744877, 457453568161, 528929554561, 546348519181, 602248359169, 1362242655901,
            1871186716981, 2152302898747, 2273312197621, 2366338900801, 3343433905957, 3461715915661, 3474749660383, 3477707481751, 4341937413061, 4777422165601, 5537838510751]
    for n in psi + more:
        if cx.take():
            if not ref.is_probable_prime(n):
                prime(n, False)
    cx.group('composites of special form')
    # (k+1)(rk+1): the shapes that pass the most bases; Carmichael numbers
    for q in primes[5:cx.thorough and 30000 or 3000]:
        if cx.take():
            for r in (2, 3, 4, 5, 6, 7, 8):
                w = r * (q - 1) + 1
                prime(q * w, False)
    for k in range(1, cx.thorough and 40000 or 3000):
        if cx.take():
            n = (6 * k + 1) * (12 * k + 1) * (18 * k + 1)
            if n < psi[-1]:
                prime(n, False)
    for q in primes[5:]:
        if q < (cx.thorough and 60000 or 5000) and cx.take():
            for e in (2, 3, 4):
                if q ** e < psi[-1]:
                    prime(q ** e, False)
    big = [ref.next_prime(1 << k) for k in (11, 12, 15, 16, 20, 24, 28, 31, 32, 33, 36, 38, 39, 40)]
    for a in big:
        for b in big:
            if cx.take() and a * b < 3317044064679887385961981:
                prime(a * b, False)
    for n in (1093 ** 2, 3511 ** 2, 1093 ** 2 * 13, 561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 341550071728321 * 13, 443372888629441, 9746347772161):
        if cx.take():
            prime(n, False)
    cx.group('many halvings of n - 1')
    for e in range(1, cx.thorough and 500 or 140):
        if cx.take():
            for r in range(1, cx.thorough and 60 or 20, 2):
                n = (r << e) + 1
                if n < 3317044064679887385961981:
                    prime(n, ref.is_probable_prime(n))
                elif ref.is_probable_prime(n):
                    prime(n, True)
    proth = [(r << e) + 1 for e in range(8, 40) for r in range(1, 12, 2) if ref.is_probable_prime((r << e) + 1)]
    for i, a in enumerate(proth):
        if cx.take():
            for b in proth[i:]:
                if a * b < 3317044064679887385961981:
                    prime(a * b, False)
    cx.group('large primes')
    C = mclib.load('ecc.curves')
    ps = [c.p for c in C.allCurves] + [c.n for c in C.allCurves] + [(1 << k) - 1 for k in (13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279)]
    for n in ps:
        if ref.is_probable_prime(n) and cx.take():
            prime(n, True)
    for k in range(17, cx.thorough and 1400 or 420):
        if cx.take():
            prime(ref.next_prime(1 << k), True)
            prime(ref.next_prime(3 << (k - 2)), True)
    for k in (450, 549, 550, 649, 650, 849, 850, 1299, 1300, 1301):
        if cx.take():
            prime(ref.next_prime(1 << k), True)
    for b in big:
        if cx.take():
            v = b
            for i in range(cx.thorough and 200 or 25):
                prime(v, True)
                w = ref.next_prime(v)
                for n in range(v + 2, w, 2):
                    prime(n, False)
                v = w
    cx.group('primes and composites of thousands of bits')
    for k in (2203, 2281):
        if cx.take():
            prime((1 << k) - 1, True)
            prime(((1 << k) - 1) * 7919, False)
            prime((1 << k) + 1, False)
    for j, k in ((607, 1279), (1279, 521), (2203, 127)):
        if cx.take():
            prime(((1 << j) - 1) * ((1 << k) - 1), False)
    cx.group('large multiples of small primes')
    for k in (20, 64, 90, 100, 128, 200, 256, 521, 1000):
        for q in (2, 3, 5, 7, 11):
            if cx.take():
                v = ref.next_prime(1 << k)
                prime(v * q, False)
                prime(v * v * q, False)
                prime(q ** k, False)
    cx.group('next_prime')
    nxt = {}
    for part in range(-100, cx.thorough and 200000 or 40000, 400):
        if cx.take():
            import bisect
            for n in range(part, part + 400):
                cx.eq('next_prime(%d)' % n, primes[bisect.bisect_right(primes, n)], N.next_prime, n)
    for k in range(16, cx.thorough and 300 or 130):
        for e in (-3, -2, -1, 0, 1, 2, 5):
            if cx.take():
                n = (1 << k) + e
                cx.eq('next_prime(%d)' % n, ref.next_prime(n), N.next_prime, n)
    for n in (113, 1327, 31397, 370261, 2010733, 20831323, 25056082087, 42652618343, 461690510011, 1425172824437699411, -5, -1, 0, 1L, (1 << 31) - 1, (1 << 61) - 1, 1 << 80):
        for e in (-1, 0, 1):
            if cx.take():
                m = n + e
                cx.eq('next_prime(%d)' % m, 2 if m < 2 else ref.next_prime(m), N.next_prime, m)
