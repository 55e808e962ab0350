# Orbits of permutations
import mclib, ref
import itertools

A = mclib.load('analysis.permutation')
B = mclib.load('analysis.sbox_analysis')


def sm4_sbox():
    """ A(I(A(x))) over GF(2^8) modulo x^8+x^7+x^6+x^5+x^4+x^2+1, A(x) = circulant(a7) x + d3 """
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a & 256:
                a ^= 0x1f5
            b >>= 1
        return r
    inv = [0] * 256
    for a in range(1, 256):
        z = 1
        for i in range(254):
            z = mul(z, a)
        inv[a] = z

    def affine(x):
        r = 0
        for i in range(8):
            row = (0xa7 << i | 0xa7 >> (8 - i)) & 255
            r |= (bin(row & x).count('1') & 1) << i
        return r ^ 0xd3
    return [affine(inv[affine(x)]) for x in range(256)]


def cycles(p):
    todo, r = set(range(len(p))), {}
    for s in range(len(p)):
        if s in todo:
            c, x = [s], p[s]
            todo.discard(s)
            while x != s:
                c.append(x)
                todo.discard(x)
                x = p[x]
            r[s] = c
    return r


FORMS = (('permutation', A.permutation.map_orbits_of_permutation, A.permutation.orbit_start_and_length),
         ('sbox_analysis', B.map_orbits_of_permutation, B.orbit_start_and_length))


def run(cx):
    def check(name, p):
        want = cycles(p)
        pairs = sorted((s, len(c)) for s, c in want.items())
        for form, orbits, lengths in FORMS:
            for kind in (list, tuple):
                q = kind(p)
                cx.eq('%s orbits of %s %s' % (form, kind.__name__, name), want, lambda: dict((k, list(v)) for k, v in orbits(q).items()))
                cx.eq('%s lengths of %s %s' % (form, kind.__name__, name), pairs, lambda: sorted(tuple(x) for x in lengths(q)))
                cx.ok('%s unmodified %s' % (form, name), q == kind(p), q, p)

    cx.group('every permutation')
    for n in range(0, cx.thorough and 10 or 9):
        for k, p in enumerate(itertools.permutations(range(n))):
            if k % 40 == 0:
                mine = cx.take()
            if mine:
                check(repr(p), list(p))
    cx.group('larger permutations')
    for n in (8, 9, 15, 16, 17, 31, 64, 100, 255, 256, 257, 300, 512, 1000, 1024, 1025, 4097):
        big = n > 600
        cases = [('identity', range(n)), ('reversal', range(n)[::-1])]
        cases += [('swap last two', range(n - 2) + [n - 1, n - 2]), ('swap ends', [n - 1] + range(1, n - 1) + [0])]
        for k in (1, 2, 3, 5, n // 2, n - 1):
            cases.append(('rotation by %d' % k, [(i + k) % n for i in range(n)]))
        for m in big and (3, 7, 11) or range(2, 30):
            if ref.gcd(m, n) == 1:
                cases.append(('multiplication by %d' % m, [i * m % n for i in range(n)]))
                cases.append(('affine %d' % m, [(i * m + 1) % n for i in range(n)]))
        for d in (1, 3, 7):
            x, p = d, range(n)
            for i in range(n - 1, 0, -1):          # a fixed shuffle
                x = (x * 1103515245 + 12345) % (1 << 31)
                j = (x >> 8) % (i + 1)
                p[i], p[j] = p[j], p[i]
            cases.append(('shuffle %d' % d, p))
        for name, p in cases:
            if cx.take():
                check('%s of %d' % (name, n), p)
    # one cycle of each length at each end of the range, all else fixed
    n = 40
    for length in range(2, n + 1):
        if cx.take():
            for start in (0, n - length):
                p = range(n)
                for i in range(start, start + length):
                    p[i] = start + (i - start + 1) % length
                check('cycle of %d at %d' % (length, start), p)
                p = range(n)
                for i in range(start, start + length):
                    p[i] = start + (i - start - 1) % length
                check('backward cycle of %d at %d' % (length, start), p)
    cx.group('shipped tables')
    sm4 = sm4_sbox()
    for name, mod in (('permutation', A), ('sbox_analysis', B)):
        for i in range(256):
            if cx.take():
                cx.eq('%s.aes_sbbytes[%d]' % (name, i), ref.AES_SBOX()[i], lambda: mod.aes_sbbytes[i])
                cx.eq('%s.sms4_sbbytes[%d]' % (name, i), sm4[i], lambda: mod.sms4_sbbytes[i])
        if cx.take():
            cx.ok('%s table lengths' % name, len(mod.aes_sbbytes) == len(mod.sms4_sbbytes) == 256, False, True)
            check('aes_sbbytes', list(mod.aes_sbbytes))
            check('sms4_sbbytes', list(mod.sms4_sbbytes))
