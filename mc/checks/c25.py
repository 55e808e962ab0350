# Which coordinates make a point, equality of points, and curves do not mix
import mclib, ref, curvelib
from curvelib import point


def run(cx):
    def member(c, name, x, y, want):
        if want:
            cx.eq('point(%s, %s) is made, %s' % (x, y, name), (x, y), lambda: (lambda P: (P.x, P.y))(c.point(x, y)))
        else:
            cx.refused('point(%s, %s), %s' % (x, y, name), c.point, x, y)
        cx.eq('on_curve of (%s, %s), %s' % (x, y, name), want, lambda: bool(c.on_curve(c.point(x, y, validate=False))))

    def grid(c, p, name, eq, lo, hi):
        for x in range(lo * p, hi * p):
            for y in range(lo * p, hi * p):
                member(c, name, x, y, eq(x, y) % p == 0)

    def equality(make, p, pts, name, add_refused):
        c1, c2 = make(), make()
        A = [point(c1, P) for P in pts]
        B = [point(c1, P) for P in pts]
        D = [point(c2, P) for P in pts]
        for i, P in enumerate(pts):
            for j, Q in enumerate(pts):
                d = '%s and %s, %s' % (P, Q, name)
                cx.eq('== of ' + d, i == j, lambda: bool(A[i] == B[j]))
                cx.eq('!= of ' + d, i != j, lambda: bool(A[i] != B[j]))
                cx.eq('== across curve objects, ' + d, False, lambda: bool(A[i] == D[j]))
                cx.eq('!= across curve objects, ' + d, True, lambda: bool(A[i] != D[j]))
                if add_refused:
                    cx.refused('sum across curve objects, ' + d, lambda: A[i] + D[j])
                    cx.refused('difference across curve objects, ' + d, lambda: D[j] - A[i])
            cx.eq('%s equals itself, %s' % (P, name), True, lambda: A[i] == A[i])

    cx.group('all pairs of coordinates, Weierstrass')
    for p in cx.thorough and (3, 5, 7, 11, 13, 17, 19, 23) or (3, 5, 7, 11):
        for a in range(p):
            for b in range(p):
                if curvelib.sw_ok(p, a, b):
                    for k in (0, 1):
                        if (k == 0 or a == 0) and cx.take():
                            name = 'p=%d a=%d b=%d%s' % (p, a, b, k and ' koblitz' or '')
                            c = curvelib.sw_class(p, a, b, k)()
                            grid(c, p, name, lambda x, y: y * y - x * x * x - a * x - b, p < 8 and -1 or 0, p < 8 and 2 or 1)
                            cx.ok('identity, ' + name, c.point(None, None) == c.IDENTITY)
                            for v in range(p):
                                cx.refused('point(None, %d), %s' % (v, name), c.point, None, v)
                                cx.refused('point(%d, None), %s' % (v, name), c.point, v, None)
                            equality(lambda: curvelib.sw_class(p, a, b, k)(), p, curvelib.sw_points(p, a, b), name, True)
    cx.group('all pairs of coordinates, Edwards')
    for p in cx.thorough and (5, 7, 11, 13, 17, 19) or (5, 7, 11):
        for a in range(1, p):
            for d in range(1, p):
                if a != d and cx.take():
                    name = 'p=%d a=%d d=%d' % (p, a, d)
                    c = curvelib.ed_class(p, a, d)()
                    grid(c, p, name, lambda x, y: a * x * x + y * y - 1 - d * x * x * y * y, p < 8 and -1 or 0, p < 8 and 2 or 1)
                    cx.refused('point(None, None), ' + name, c.point, None, None)
                    equality(lambda: curvelib.ed_class(p, a, d)(), p, curvelib.ed_points(p, a, d), name, False)
    cx.group('all pairs of coordinates, Montgomery')
    for p in cx.thorough and (3, 5, 7, 11, 13, 17, 19, 23, 29, 31) or (3, 5, 7, 11, 13, 17):
        for a in range(p):
            if (a * a - 4) % p and cx.take():
                name = 'p=%d a=%d' % (p, a)
                c = curvelib.mont_class(p, a)()
                grid(c, p, name, lambda x, y: y * y - x * x * x - a * x * x - x, p < 14 and -1 or 0, p < 14 and 2 or 1)
                cx.ok('identity, ' + name, c.point(None, None) == c.IDENTITY)
                for v in range(p):
                    cx.refused('point(None, %d), %s' % (v, name), c.point, None, v)
                    cx.refused('point(%d, None), %s' % (v, name), c.point, v, None)
                equality(lambda: curvelib.mont_class(p, a)(), p, curvelib.mont_points(p, a), name, False)
    cx.group('Weierstrass curves of different parameters')
    cs = [(p, a, b) for p, a, b in ((5, 1, 1), (5, 1, 4), (5, 2, 1), (7, 1, 1), (7, 4, 1), (11, 8, 1), (11, 0, 1), (13, 8, 1))]
    for m in cs:
        for n in cs:
            if m != n and cx.take():
                c, e = curvelib.sw_class(*m)(), curvelib.sw_class(*n)()
                for P in curvelib.sw_points(*m):
                    for Q in curvelib.sw_points(*n):
                        d = '%s of %s, %s of %s' % (P, m, Q, n)
                        cx.eq('== of ' + d, False, lambda: bool(point(c, P) == point(e, Q)))
                        cx.refused('sum of ' + d, lambda: point(c, P) + point(e, Q))
                        cx.refused('difference of ' + d, lambda: point(c, P) - point(e, Q))

    def shipped(kind, eqn):
        for cls in curvelib.shipped(kind):
            c = cls()
            p, G, name = cls.p, (cls.xG, cls.yG), cls.__name__
            eq = eqn(cls)
            pts = [G]
            for bit in range(p.bit_length() + 3):
                for x, y in ((G[0] ^ (1 << bit), G[1]), (G[0], G[1] ^ (1 << bit)), (G[0] ^ (1 << bit), G[1] ^ (1 << bit))):
                    if cx.take():
                        member(c, name, x, y, eq(x, y) % p == 0)
            for x, y in [(G[0], G[1]), (G[0], -G[1]), (G[0], p - G[1]), (-G[0], G[1]), (p - G[0], G[1]), (G[0] + p, G[1]), (G[0], G[1] + p), (G[0] - p, G[1] - p),
                         (G[1], G[0]), (0, 0), (0, 1), (1, 0), (1, 1), (p - 1, p - 1), (0, p - 1), (p, 0), (0, p), (p, p + 1), (G[0], 0), (0, G[1]), (G[0], G[0])] + \
                    [(G[0] + i, G[1] + j) for i in range(-3, 4) for j in range(-3, 4)] + \
                    [(G[0] * i % p, G[1] * j % p) for i in (1, 2, p - 1, 1 << 64) for j in (1, 2, 3, 1 << 64)] + \
                    [(G[0], ref.num_be(ref.octets(p.bit_length() // 8, i))) for i in range(20)] + \
                    [(ref.num_be(ref.octets(p.bit_length() // 8, i)), G[1]) for i in range(20)]:
                if cx.take():
                    member(c, name, x, y, eq(x, y) % p == 0)
            if cx.take():
                c2 = cls()
                g, g2, g3 = c.generator(), c2.generator(), c.generator()
                cx.ok('generator of %s' % name, (g.x, g.y) == G and g == g3 and not (g != g3), (g.x, g.y), G)
                cx.ok('generators of two objects of %s' % name, not (g == g2) and g != g2)
                if kind == 'sw':
                    cx.refused('sum of generators of two objects of %s' % name, lambda: g + g2)
                    cx.refused('sum with the identity of another object of %s' % name, lambda: g + c2.IDENTITY)
                    cx.refused('identity of another object of %s plus generator' % name, lambda: c2.IDENTITY + g)
                cx.refused('point(None, y) of %s' % name, c.point, None, G[1])
                cx.refused('point(x, None) of %s' % name, c.point, G[0], None)
    cx.group('shipped Weierstrass curves')
    shipped('sw', lambda C: lambda x, y: y * y - x * x * x - C.a * x - C.b)
    cx.group('shipped Edwards curves')
    shipped('ed', lambda C: lambda x, y: C.a * x * x + y * y - 1 - C.d * x * x * y * y)
    cx.group('shipped Montgomery curves')
    shipped('mont', lambda C: lambda x, y: y * y - x * x * x - C.a * x * x - x)
    cx.group('generators on the other curves')
    every = [(k, c) for k in ('sw', 'ed', 'mont') for c in curvelib.shipped(k)]
    for k, c in every:
        for k2, e in every:
            if c is not e and cx.take():
                x, y, p = e.xG, e.yG, c.p
                v = (k == 'sw' and y * y - x * x * x - c.a * x - c.b or k == 'ed' and c.a * x * x + y * y - 1 - c.d * x * x * y * y
                     or k == 'mont' and y * y - x * x * x - c.a * x * x - x or 0) % p
                member(c(), '%s of %s' % (c.__name__, e.__name__), x, y, v == 0)
