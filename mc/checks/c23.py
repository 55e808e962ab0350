# Montgomery curves: group law and scalar multiples
import mclib, ref, curvelib
from curvelib import tup, point


def run(cx):
    def small(p, a, lo, hi, chain):
        if (a * a - 4) % p == 0 or not cx.take():
            return
        c = curvelib.mont_class(p, a)()
        pts = curvelib.mont_points(p, a)
        name = 'p=%d a=%d' % (p, a)
        add = lambda P, Q: ref.mont_add(p, a, P, Q)
        fresh = lambda P: point(c, P)
        model = curvelib.table(pts, add)
        for label, I in (('IDENTITY', c.IDENTITY), ('identity()', c.identity()), ('point(None, None)', c.point(None, None))):
            cx.ok('%s is the identity, %s' % (label, name), tup(c, I) is None, I)
            cx.eq('-%s, %s' % (label, name), None, lambda: tup(c, -I))
            cx.eq('%s.double(), %s' % (label, name), None, lambda: tup(c, I.double()))
            for P in pts:
                cx.eq('P+%s, P=%s, %s' % (label, P, name), P, lambda: tup(c, point(c, P) + I))
                cx.eq('%s-P, P=%s, %s' % (label, P, name), ref.neg(p, P), lambda: tup(c, I - point(c, P)))
        for P in pts:
            cx.state((name, P))
            e = '%s, P=%s' % (name, P)
            cx.eq('-P, ' + e, ref.neg(p, P), lambda: tup(c, -fresh(P)))
            cx.eq('P.double(), ' + e, model[P, P], lambda: tup(c, fresh(P).double()))
            o = fresh(P)
            cx.eq('P+P, one object, ' + e, model[P, P], lambda: tup(c, o + o))
            cx.eq('P-P, one object, ' + e, None, lambda: tup(c, o - o))
            for Q in pts:
                cx.trans(2)
                g = '%s, Q=%s' % (e, Q)
                cx.eq('P+Q, ' + g, model[P, Q], lambda: tup(c, fresh(P) + fresh(Q)))
                cx.eq('P-Q, ' + g, model[P, ref.neg(p, Q)], lambda: tup(c, fresh(P) - fresh(Q)))
                if chain:
                    S = cx.call(g, lambda: fresh(P) + fresh(Q))
                    cx.eq('(P+Q).double(), ' + g, model[model[P, Q], model[P, Q]], lambda: tup(c, S.double()))
                    cx.eq('-(P+Q), ' + g, ref.neg(p, model[P, Q]), lambda: tup(c, -S))
                    for R in pts:
                        cx.trans(2)
                        w = model[model[P, Q], R]
                        cx.eq('(P+Q)+R, %s, R=%s' % (g, R), w, lambda: tup(c, S + fresh(R)))
                        cx.eq('P+(Q+R), %s, R=%s' % (g, R), w, lambda: tup(c, fresh(P) + (fresh(Q) + fresh(R))))
            N = len(pts)
            cyc, Q = [None], P
            while Q is not None:
                cyc.append(Q)
                Q = model[Q, P]
            for k in range(lo * N - 3, hi * N + 4):
                cx.trans()
                cx.eq('k=%d, %s' % (k, e), cyc[k % len(cyc)], lambda: tup(c, k * o))
                if chain:
                    cx.eq('P*k, k=%d, %s' % (k, e), cyc[k % len(cyc)], lambda: tup(c, o * long(k)))
            cx.eq('P unchanged, ' + e, P, lambda: tup(c, o))
        cx.traces += 1

    cx.group('all curves, triples and scalars')
    for p in cx.thorough and (3, 5, 7, 11, 13) or (3, 5, 7, 11):
        for a in range(p):
            small(p, a, -2, 2, True)
    cx.group('all curves, pairs and scalars')
    for p in cx.thorough and (17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61) or (13, 17, 19, 23, 29, 31, 37):
        for a in range(p):
            small(p, a, -1, 1, False)
    cx.group('larger fields and unreduced coefficients')
    for p, cs in ((101, [3, 6, 98]), (103, [0, 5, 101]), (131, cx.thorough and [1, 6, 129] or [6]), (13, [-1, -6, 16, 26]), (11, [-5, 12, 22, -11])):
        for a in cs:
            small(p, a, 0, p < 50 and 1 or 0, False)
    cx.group('long runs of scalars')
    for p, a in ((1009, 6), (4093, 486)):
        x = 3
        while ref.sqrt_mod(x * x * x + a * x * x + x, p) is None:
            x += 1
        P = (x, ref.sqrt_mod(x * x * x + a * x * x + x, p))
        add = lambda X, Y: ref.mont_add(p, a, X, Y)
        for s in range(0, cx.thorough and 20000 or 2400, 100):
            if cx.take():
                c = curvelib.mont_class(p, a)()
                o = point(c, P)
                Q = ref.mul(add, None, P, s)
                for k in range(s, s + 100):
                    cx.trans()
                    cx.eq('k=%d, p=%d' % (k, p), Q, lambda: tup(c, k * o))
                    Q = add(Q, P)
                cx.traces += 1
    cx.group('scalars next to powers of two')
    for p, a in ((11, 6), (13, 6), (17, 3)):
        pts = curvelib.mont_points(p, a)
        add = lambda X, Y: ref.mont_add(p, a, X, Y)
        for j in list(curvelib.LONG) + (cx.thorough and range(1, 640) or range(1, 34) + [62, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 384, 511, 512, 521]):
            if cx.take():
                c = curvelib.mont_class(p, a)()
                for P in pts[:6]:
                    for k in [(1 << j) - 1, (1 << j), (1 << j) + 1, (1 << j) // 3]:
                        cx.trans(2)
                        w = ref.mul(add, None, P, k)
                        cx.eq('k=%d, P=%s, p=%d' % (k, P, p), w, lambda: tup(c, k * point(c, P)))
                        cx.eq('k=%d, P=%s, p=%d' % (-k, P, p), ref.neg(p, w), lambda: tup(c, point(c, P) * -k))
                cx.traces += 1

    for cls in curvelib.shipped('mont'):
        p, a, n, h = cls.p, cls.a, cls.n, cls.h
        G = (cls.xG, cls.yG)
        add = lambda X, Y: ref.mont_add(p, a, X, Y)
        name = cls.__name__
        cx.group('shipped curves, pairs')
        if cx.take():
            c = cls()
            pts = [None, (0, 0), G, ref.neg(p, G), add(G, G), add(G, (0, 0)), ref.mul(add, None, G, 0x1234567), add(add(G, G), G)]
            r = ref.sqrt_mod(a + 2, p)     # x = 1: a point of order four
            if r is not None:
                pts += [(1, r), (1, p - r), add((1, r), G)]
            r = ref.sqrt_mod(a - 2, p)     # x = -1
            if r is not None:
                s = ref.sqrt_mod(-(1 - a + 1), p)
                if s is not None:
                    pts += [(p - 1, s)]
            x = 2
            while len(pts) < 14:
                y = ref.sqrt_mod(x * x * x + a * x * x + x, p)
                if y is not None:
                    pts.append((x, y))
                x += 1
            for P in pts:
                cx.state((name, P))
                cx.eq('-P, %s, P=%s' % (name, P), ref.neg(p, P), lambda: tup(c, -point(c, P)))
                cx.eq('P.double(), %s, P=%s' % (name, P), add(P, P), lambda: tup(c, point(c, P).double()))
                for Q in pts:
                    cx.trans(2)
                    cx.eq('P+Q, %s, P=%s Q=%s' % (name, P, Q), add(P, Q), lambda: tup(c, point(c, P) + point(c, Q)))
                    cx.eq('P-Q, %s, P=%s Q=%s' % (name, P, Q), add(P, ref.neg(p, Q)), lambda: tup(c, point(c, P) - point(c, Q)))
            cx.traces += 1
        cx.group('shipped curves, scalars')
        ks = [0, 1, 2, 3, 7, n - 1, n, n + 1, n // 2, h * n, -1, -n, -5, ref.num_be(ref.octets(n.bit_length() // 8, 7)), (1 << n.bit_length()) + 99]
        if cx.thorough:
            ks += [(1 << j) + e for j in range(2, n.bit_length(), 3) for e in (-1, 1)]
        for k in ks:
            if cx.take():
                c = cls()
                cx.trans()
                w = ref.mul(add, None, k >= 0 and G or ref.neg(p, G), abs(k))
                cx.eq('%s, k=%#x' % (name, k), w, lambda: tup(c, k * c.generator()))
                cx.traces += 1
