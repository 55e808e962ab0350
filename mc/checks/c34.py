# Factorization and multiplicative functions
import mclib, ref

N = mclib.load('ecc.numbertheory')


def lcm(a, b):
    return a // ref.gcd(a, b) * b


def run(cx):
    limit = cx.thorough and 400000 or 60000
    spf = [0] * (limit + 1)
    for i in range(2, limit + 1):
        if spf[i] == 0:
            for j in range(i, limit + 1, i):
                if spf[j] == 0:
                    spf[j] = i

    def small_factors(n):
        f = []
        while n > 1:
            q, e = spf[n], 0
            while n % q == 0:
                n, e = n // q, e + 1
            f.append((q, e))
        return f

    def functions(n, f):
        got = cx.eq('factorization(%d)' % n, f, lambda: [tuple(x) for x in N.factorization(n)])
        ph, lam = 1, 1
        for q, e in f:
            ph *= q ** (e - 1) * (q - 1)
            l = 2 ** (e - 2) if q == 2 and e > 2 else q ** (e - 1) * (q - 1)
            lam = lcm(lam, l)
            if hasattr(N, 'carmichael_of_ppower'):
                cx.eq('carmichael_of_ppower(%d, %d)' % (q, e), l, N.carmichael_of_ppower, (q, e))
        cx.eq('phi(%d)' % n, ph, N.phi, n)
        cx.eq('carmichael(%d)' % n, lam, N.carmichael, n)
        cx.eq('carmichael_of_factorized(%r)' % (f,), lam, N.carmichael_of_factorized, list(f))

    cx.group('every small integer')
    for part in range(2, limit, 250):
        if cx.take():
            for n in range(part, min(limit, part + 250)):
                functions(n, small_factors(n))
    for n in (1, 0, -1, -2, -12, -(1 << 70)):
        if cx.take():
            cx.eq('factorization(%d)' % n, [], lambda: list(N.factorization(n)))
    if cx.take():
        cx.eq('phi(1)', 1, N.phi, 1)
        cx.eq('carmichael(1)', 1, N.carmichael, 1)
        cx.eq('carmichael_of_factorized([])', 1, N.carmichael_of_factorized, [])
        for n in (2L, 12L, 1231L, 1231L ** 2):
            functions(n, [(2, 1)] if n == 2 else [(2, 2), (3, 1)] if n == 12 else [(1231, n == 1231 and 1 or 2)])

    def product(*fs):
        n, d = 1, {}
        for q, e in fs:
            n *= q ** e
            d[q] = d.get(q, 0) + e
        functions(n, sorted(d.items()))

    cx.group('primes around the end of the table of small primes')
    near = [q for q in ref.sieve(1420) if q > 1180]
    for i, a in enumerate(near):
        for b in near[i:]:
            if cx.take():
                product((a, 1), (b, 1))
                product((a, 2), (b, 1))
                product((2, 3), (a, 1), (b, 2))
                product((3, 1), (1229, 1), (a, 1), (b, 1))
    for a in near:
        if cx.take():
            for e in range(1, 7):
                product((a, e))
                product((2, 1), (1223, 2), (a, e))
    pr = ref.sieve(cx.thorough and 12000 or 6000)
    cx.group('prime squares, cubes and neighbours')
    for a, b in zip(pr[195:], pr[196:]):
        if cx.take():
            product((a, 2))
            product((a, 3))
            product((a, 1), (b, 1))
            product((5, 2), (a, 1), (b, 2))
    cx.group('powers and products of small primes')
    for q in (2, 3, 5, 7, 31, 1223, 1229):
        for e in range(1, 130):
            if cx.take():
                product((q, e))
    for e in range(1, 14):
        for f in range(1, 14):
            if cx.take():
                product((2, e), (3, f))
                product((2, e), (7, f), (1229, 1))
                product((3, e), (5, f), (1231, 2))
    cx.group('large prime cofactors')
    bigp = [(1 << 31) - 1, (1 << 61) - 1, (1 << 89) - 1, (1 << 127) - 1, ref.next_prime(1 << 40), ref.next_prime(1 << 64), ref.next_prime(1 << 100), ref.next_prime(1229 ** 2), ref.next_prime(10 ** 6)]
    for q in bigp:
        for small in ([], [(2, 1)], [(2, 3)], [(3, 2)], [(2, 2), (3, 1), (1229, 1)], [(2, 64)], [(1223, 3)], [(7, 1), (11, 1), (13, 1)]):
            if cx.take():
                product(*(small + [(q, 1)]))
    if cx.take():
        product((1231, 1), ((1 << 31) - 1, 1)) if cx.thorough else product((1231, 1), (99991, 1))
        product((1231, 2), (1237, 1), (15013, 1))
        product((99989, 1), (99991, 1)) if cx.thorough else product((9967, 1), (9973, 1))

    cx.group('several primes beyond the table')
    beyond = [1231, 1237, 1249, 1301, 1409, 2003, 3001, 4999]
    for i, a in enumerate(beyond):
        for j in range(i + 1, len(beyond)):
            b = beyond[j]
            if cx.take():
                for e in range(1, 5):
                    for f in range(1, 5):
                        product((a, e), (b, f))
            for c in beyond[j + 1:]:
                if cx.take():
                    for e, f, g in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (3, 1, 1), (1, 1, 3)):
                        product((a, e), (b, f), (c, g))
                    product((2, 4), (a, 1), (b, 1), (c, 1))
                    product((1229, 2), (a, 1), (b, 2), (c, 1))
    cx.group('order_mod')
    for m in range(2, cx.thorough and 420 or 180):
        if cx.take():
            for x in range(0, 2 * m + 2):
                if ref.gcd(x % m, m) == 1:
                    k, z = 1, x % m
                    while z != 1 % m:
                        k, z = k + 1, z * x % m
                    cx.eq('order_mod(%d, %d)' % (x, m), k, N.order_mod, x, m)
                else:
                    cx.refused('order_mod(%d, %d)' % (x, m), N.order_mod, x, m)
    for m in (1009, 2048, 2187, 4096, 3 * 5 * 7 * 11, 10007):
        for x in (2, 5, 7, 10, 13, 17, m - 1, m + 2, m * m + 2, (1 << 64) + 1):
            if ref.gcd(x % m, m) == 1 and cx.take():
                k, z = 1, x % m
                while z != 1:
                    k, z = k + 1, z * x % m
                cx.eq('order_mod(%d, %d)' % (x, m), k, N.order_mod, x, m)
    cx.group('small orders modulo larger numbers')
    primes = [q for q in range(2, 500) if all([q % d for d in range(2, q)])]
    powers = [q ** e for q in primes for e in range(1, 20) if 180 < q ** e < 10 ** 6]
    products = [43 * 43 * 7, 47 * 47 * 2, 43 * 173, 173 * 173, 83 * 167 * 2, 7 * 29 * 43, 13 * 79 * 157, 2 * 3 * 5 * 7 * 11 * 13, 64 * 81 * 25, 1597 * 13, 1024 * 7, 8 * 27 * 125, 4 * 343, 16 * 9 * 49, 997 * 991]
    for m in powers + products:
        if m > 20000 and m not in products and not cx.thorough and powers.index(m) % 4:
            continue
        if cx.take():
            f = ref.factor(m)
            lam = 1
            for q, e in f:
                t = (q - 1) * q ** (e - 1) if q > 2 or e < 3 else 2 ** (e - 2)
                lam = lam * t // ref.gcd(lam, t)
            for d in [d for d in range(1, min(lam, cx.thorough and 5000 or 2000) + 1) if lam % d == 0]:
                for g in (2, 3, 5, 7, 10, m - 1, 17 + d):
                    if ref.gcd(g, m) == 1:
                        x = pow(g, lam // d, m)
                        k = d
                        for q, e in ref.factor(d):
                            while k % q == 0 and pow(x, k // q, m) == 1:
                                k //= q
                        cx.eq('order_mod(%d, %d)' % (x, m), k, N.order_mod, x, m)
    cx.group('largest factor relatively prime, order modulo it')

    def coprime_part(a, b):
        d = ref.gcd(a, b)
        while d > 1:
            a //= d
            d = ref.gcd(a, b)
        return a
    for a in range(1, cx.thorough and 700 or 260):
        if cx.take():
            for b in range(1, cx.thorough and 400 or 200):
                cx.eq('largest_factor_relatively_prime(%d, %d)' % (a, b), coprime_part(a, b), N.largest_factor_relatively_prime, a, b)
    for a in (2 ** 70 * 3 ** 40, 2 ** 64, 6 ** 50 * 35, 10 ** 60, (1 << 127) - 1, 1231 ** 5 * 2 ** 9):
        for b in (2, 6, 10, 12, 35, 1231, 2 ** 64, 3 ** 45, 30 ** 20, (1 << 127) - 1, 1231 ** 9):
            if cx.take():
                cx.eq('largest_factor_relatively_prime(%d, %d)' % (a, b), coprime_part(a, b), N.largest_factor_relatively_prime, a, b)
    for m in range(2, 130):
        if cx.take():
            for x in range(1, 100):
                w = coprime_part(m, x)
                if w > 1:
                    k, z = 1, x % w
                    while z != 1:
                        k, z = k + 1, z * x % w
                    cx.eq('kinda_order_mod(%d, %d)' % (x, m), k, N.kinda_order_mod, x, m)
