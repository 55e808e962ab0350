# Square roots modulo primes
import mclib, ref

N = mclib.load('ecc.numbertheory')


def run(cx):
    def both(a, p, qr=None):
        if qr is None:
            qr = a % p == 0 or ref.euler(a, p) == 1
        d = 'a=%d p=%d' % (a, p)
        if qr:
            r = cx.call(d, N.square_root_mod_prime, a, p)
            cx.ok('square_root_mod_prime, ' + d, not isinstance(r, mclib.Raised) and 0 <= r < p and r * r % p == a, r, 'a root')
        else:
            r = cx.call(d, refuse, a, p)
            cx.ok('square_root_mod_prime, ' + d, r == 'SquareRootError', r, 'SquareRootError')
        r = cx.call(d, N.modular_sqrt, a, p)
        cx.ok('modular_sqrt, ' + d, not isinstance(r, mclib.Raised) and (0 <= r < p and r * r % p == a if qr else r == 0), r, qr and 'a root' or 0)

    def refuse(a, p):
        try:
            return N.square_root_mod_prime(a, p)
        except N.SquareRootError:
            return 'SquareRootError'

    cx.group('every residue of every small prime')
    for p in ref.sieve(cx.thorough and 6000 or 1500)[1:]:
        sq = set([x * x % p for x in range(p)])
        for part in range(0, p, 200):
            if cx.take():
                for a in range(part, min(p, part + 200)):
                    both(a, p, a in sq)
    cx.group('primes with a high power of two in p-1')
    high = [257, 641, 769, 7681, 12289, 40961, 65537, 114689, 163841, 786433, 5767169, 7340033, 23068673, 104857601, 167772161, 469762049, 754974721,
            998244353, 2013265921, 2281701377, 3221225473, 75161927681, 77309411329, 206158430209, 2061584302081, 6597069766657, 39582418599937, 79164837199873,
            (1 << 64) - (1 << 32) + 1, (1 << 224) - (1 << 96) + 1, (1 << 251) + 17 * (1 << 192) + 1]
    for p in high:
        assert ref.is_probable_prime(p)
        e, s = 0, p - 1
        while s % 2 == 0:
            e, s = e + 1, s // 2
        z = 2
        while ref.euler(z, p) != -1:
            z += 1
        g = pow(z, s, p)                    # generates the subgroup of order 2^e
        if p < 70000 and (cx.thorough or p < 13000):
            for part in range(0, p, 300):
                if cx.take():
                    for a in range(part, min(p, part + 300)):
                        both(a, p)
        for i in range(e + 1):
            # elements whose 2-part has order 2^(e-i), alone and with odd parts
            if e > 64 and i % 6 and i < e - 8 and i > 3 and not cx.thorough:
                continue
            if cx.take():
                h = pow(g, 1 << i, p)
                for u in (1, pow(2, 1 << e, p), pow(3, 1 << e, p), pow(12345, 1 << e, p)):
                    both(h * u % p, p)
                both(pow(h, 3, p), p)
                both(p - h, p)
        for j in range(0, e, e > 40 and not cx.thorough and 7 or 1):   # every digit pattern: one bit of the discrete logarithm
            if cx.take():
                both(pow(g, (1 << j) + (1 << (e - 1)), p), p)
                both(pow(g, ((1 << e) - 1) ^ (1 << j), p), p)
                both(pow(g, ((1 << e) - 2) ^ (1 << j), p), p)
        for a in range(12) + [p - 1 - i for i in range(6)] + [p // 2, p // 3]:
            if cx.take():
                both(a % p, p)
    cx.group('primes with many small residues')
    # the least non-residue is large, and so is the search for b or n
    pseudo = [73, 241, 1009, 8089, 18001, 53881, 87481, 117049, 515761, 1083289, 3206641, 3818929, 9257329, 22000801, 48473881, 175244281, 427733329, 898716289,
              8114538721, 9176747449, 23616331489, 196265095009, 2871842842801, 26250887023729, 112434732901969, 178936222537081, 696161110209049,
              2854909648103881, 6450045516630769, 11641399247947921, 190621428905186449, 196640148121928601, 712624335095093521, 1773855791877850321,
              2327687064124474441, 6384991873059836689, 8019204661305419761, 10198100582046287689, 69848288320900186969, 208936365799044975961]
    for p in pseudo:
        if ref.is_probable_prime(p):
            if cx.take():
                z = 2
                while ref.euler(z, p) != -1:
                    z += 1
                cx.note('least non-residue of %d: %d' % (p, z)) if cx.thorough else None
                for a in range(0, z + 12):
                    both(a, p)
                    both(p - 1 - a, p)
            if cx.take():
                for c in range(1, 60):
                    both(c * c % p, p)
                    both(p - c * c % p, p)
    cx.group('large primes')
    C = mclib.load('ecc.curves')
    big = set([c.p for c in C.allCurves] + [c.n for c in C.allCurves] + [(1 << 31) - 1, (1 << 32) + 15, (1 << 61) - 1, (1 << 89) - 1, (1 << 521) - 1, (1 << 64) + 13])
    for k in (607, 1279):
        big.add((1 << k) - 1)
    for k in (15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 160, 200, 300):
        v = (1 << k) + 1
        have = {}
        while len(have) < 4:                # one of every class modulo 8
            v = ref.next_prime(v)
            have.setdefault(v % 8, v)
        big.update(have.values())
    for p in sorted(big):
        if not ref.is_probable_prime(p):
            continue
        for a in range(8) + [p - 1, p - 2, p - 3, p - 4, (p + 1) // 2, (p - 1) // 2] + [ref.num_be(ref.octets((p.bit_length() + 7) // 8, i)) % p for i in range(cx.thorough and 60 or 8)]:
            if cx.take():
                both(a, p)
                both(a * a % p, p)
                both(p - a * a % p if a * a % p else 0, p)
