# Polynomials modulo a monic polynomial
import mclib, ref

N = mclib.load('ecc.numbertheory')


def strip(f):
    f = list(f)
    while f and f[-1] == 0:
        f.pop()
    return f


def reduced(f, m, p):
    """ Remainder of f by the monic m, by long division """
    f = [c % p for c in f]
    d = len(m) - 1
    for i in range(len(f) - 1, d - 1, -1):
        q = f[i]
        if q:
            for j in range(d + 1):
                f[i - d + j] = (f[i - d + j] - q * m[j]) % p
    return strip(f)


def times(f, g, p):
    r = [0] * (len(f) + len(g) - 1 if f and g else 0)
    for i, a in enumerate(f):
        for j, b in enumerate(g):
            r[i + j] = (r[i + j] + a * b) % p
    return r


def polys(p, length):
    """ All coefficient lists of exactly this length """
    if length == 0:
        return [[]]
    return [f + [c] for f in polys(p, length - 1) for c in range(p)]


def monic(p, deg):
    return [f + [1] for f in polys(p, deg)]


def run(cx):
    def judge(desc, r, want, m, p, at_most):
        ok = not isinstance(r, mclib.Raised)
        if ok:
            r = list(r)
            ok = strip(r) == want and len(r) <= max(len(m) - 1, at_most) and min(r + [0]) >= 0 and max(r + [0]) < p
        cx.ok(desc, ok, r, want)

    def reduce(f, m, p):
        d = 'reduce %s modulo %s, p=%d' % (f, m, p)
        keep = list(m)
        judge(d, cx.call(d, lambda: N.polynomial_reduce_mod(list(f), m, p)), reduced(f, m, p), m, p, len(f) < len(m) and len(f) or 0)
        cx.ok('modulus unchanged, ' + d, m == keep, m, keep)

    def multiply(f, g, m, p):
        d = '%s times %s modulo %s, p=%d' % (f, g, m, p)
        a, b = list(f), list(g)
        judge(d, cx.call(d, lambda: N.polynomial_multiply_mod(a, b, tuple(m), p)), reduced(times(f, g, p), m, p), m, p, 0)
        if a != f or b != g:
            cx.ok('factors unchanged, ' + d, False, (a, b), (f, g))

    def power(f, e, m, p, w):
        d = '%s to the power %d modulo %s, p=%d' % (f, e, m, p)
        a = list(f)
        judge(d, cx.call(d, lambda: N.polynomial_exp_mod(a, e, m, p)), w, m, p, e == 0 and 1 or 0)
        if a != f:
            cx.ok('base unchanged, ' + d, False, a, f)

    cx.group('reduce, all polynomials')
    for p, degs, top in cx.thorough and ((2, (1, 2, 3, 4), 8), (3, (1, 2, 3), 6), (5, (1, 2), 5), (7, (1, 2), 4), (11, (1, 2), 3)) or \
            ((2, (1, 2, 3, 4), 6), (3, (1, 2, 3), 5), (5, (1, 2), 4), (7, (1, 2), 3), (11, (1,), 3)):
        for deg in degs:
            for m in monic(p, deg):
                if cx.take():
                    for n in range(0, top + 1):
                        for f in polys(p, n):
                            reduce(f, m, p)
    cx.group('multiply, all polynomials')
    for p, degs, top in cx.thorough and ((2, (1, 2, 3, 4), 5), (3, (1, 2, 3), 3), (5, (1, 2, 3), 2), (7, (1, 2), 2)) or ((2, (1, 2, 3), 4), (3, (1, 2), 3), (5, (1, 2), 2), (7, (1,), 2)):
        for deg in degs:
            for m in monic(p, deg):
                if cx.take():
                    fs = [f for n in range(1, top + 1) for f in polys(p, n)]
                    for f in fs:
                        for g in fs:
                            multiply(f, g, m, p)
    cx.group('powers, all polynomials')
    for p, degs, top in ((2, (1, 2, 3), 5), (3, (1, 2, 3), 4), (5, (1, 2), 3), (7, (1, 2), cx.thorough and 3 or 2), (11, (1, 2), 2), (13, (1,), 2), (13, (2,), cx.thorough and 2 or 1)):
        for deg in degs:
            for m in monic(p, deg):
                if cx.take():
                    for n in range(1, top + 1):
                        for f in polys(p, n):
                            w = [1]
                            for e in range(p):
                                power(f, e, m, p, w)
                                w = reduced(times(w, f, p), m, p)
    cx.group('larger primes')
    for p in (31, 101, 257, 65537, (1 << 31) - 1, (1 << 61) - 1, (1 << 127) - 1):
        for deg in (1, 2, 3, 5, 8):
            for s in range(cx.thorough and 20 or 5):
                if cx.take():
                    o = lambda n, k: [ref.num_be(ref.octets(20, 7 * i + k)) % p for i in range(n)]
                    m = o(deg, s) + [1]
                    if s == 1:
                        m = [0] * deg + [1]
                    if s == 2:
                        m = [p - 1] * deg + [1]
                    for n in range(0, 3 * deg + 2):
                        f = s == 3 and [p - 1] * n or o(n, s + 50)
                        reduce(f, m, p)
                        reduce(f + [0, 0], m, p)
                        if n:
                            multiply(f, o(deg, s + 90), m, p)
                            multiply(f, f[:1], m, p)
                    f = o(2 * deg, s + 200)
                    w = [1]
                    for e in range(0, min(p, 34)):
                        power(f, e, m, p, w)
                        w = reduced(times(w, f, p), m, p)
                    for e in (p - 1, p - 2, (p + 1) // 2, p // 3, 1 << (p.bit_length() - 1), (1 << (p.bit_length() - 1)) - 1):
                        w, b, k = [1], reduced(f, m, p), e
                        while k:
                            if k & 1:
                                w = reduced(times(w, b, p), m, p)
                            b = reduced(times(b, b, p), m, p)
                            k >>= 1
                        power(f, e, m, p, w)
    cx.group('larger degrees')
    for p in (2, 3, 5, 251, 65537, (1 << 61) - 1, (1 << 255) - 19):
        o = lambda n, k: [ref.num_be(ref.octets(40, 7 * i + k)) % p for i in range(n)]
        for deg in (4, 6, 7, 9, 12, 15, 16, 17, 20, 31, 32, 33, 64):
            for s in range(3):
                if cx.take():
                    m = s == 1 and [0] * deg + [1] or s == 2 and [p - 1] + [0] * (deg - 1) + [1] or o(deg, s) + [1]
                    for n in (0, 1, deg - 1, deg, deg + 1, deg + 2, 2 * deg - 1, 2 * deg, 3 * deg, 100, 257):
                        reduce(o(n, s + 50), m, p)
                        reduce([0] * n, m, p)
                        reduce([0] * n + [1], m, p)
                    for n, k in ((1, 1), (deg, deg), (deg - 1, deg), (deg + 1, 2), (2 * deg, 3), (1, 3 * deg)):
                        multiply(o(n, s + 60), o(k, s + 70), m, p)
                        multiply([0] * (n - 1) + [1], o(k, s + 70), m, p)
                        multiply(o(n, s + 60), [0] * k, m, p)
                    f = o(deg, s + 200)
                    for e in (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, p // 2, p - 1):
                        if e < p and (deg < 34 or e < 70):
                            w, b, k = [1], reduced(f, m, p), e
                            while k:
                                if k & 1:
                                    w = reduced(times(w, b, p), m, p)
                                b = reduced(times(b, b, p), m, p)
                                k >>= 1
                            power(f, e, m, p, w)
    cx.group('refused moduli')
    for p in (3, 5, 7, 101):
        for deg in (1, 2, 3):
            for lead in [0] + range(2, min(p, 12)) + [p - 1, p + 1]:
                if cx.take():
                    m = [1] * deg + [lead]
                    for f in ([1], [1, 2], [0, 1, 1, 2], [1, 1, 1, 1, 1]):
                        d = '%s modulo %s, p=%d' % (f, m, p)
                        cx.refused('reduce ' + d, lambda: N.polynomial_reduce_mod(list(f), m, p))
                        cx.refused('multiply ' + d, lambda: N.polynomial_multiply_mod(list(f), [1, 1], m, p))
                        cx.refused('square of ' + d, lambda: N.polynomial_exp_mod(list(f), 2, m, p))
