# Edwards and twisted Edwards curves: group law and scalar multiples
import mclib, ref, curvelib
from curvelib import xy


def run(cx):
    def small(p, a, d, lo, hi, chain):
        if not cx.take():
            return
        c = curvelib.ed_class(p, a, d)()
        pts = curvelib.ed_points(p, a, d)
        name = 'p=%d a=%d d=%d' % (p, a, d)
        add = lambda P, Q: ref.ed_add(p, a, d, P, Q)
        neg = lambda P: (-P[0] % p, P[1])
        fresh = lambda P: c.point(P[0], P[1])
        model = curvelib.table(pts, add)
        cx.ok('identity, %s' % name, xy(c.IDENTITY) == (0, 1) and xy(c.identity()) == (0, 1), c.IDENTITY, (0, 1))
        for P in pts:
            cx.state((name, P))
            e = '%s, P=%s' % (name, P)
            cx.eq('-P, ' + e, neg(P), lambda: xy(-fresh(P)))
            cx.eq('P.double(), ' + e, model[P, P], lambda: xy(fresh(P).double()))
            o = fresh(P)
            cx.eq('P+P, one object, ' + e, model[P, P], lambda: xy(o + o))
            cx.eq('P-P, one object, ' + e, (0, 1), lambda: xy(o - o))
            cx.eq('P+IDENTITY, ' + e, P, lambda: xy(o + c.IDENTITY))
            cx.eq('IDENTITY-P, ' + e, neg(P), lambda: xy(c.IDENTITY - o))
            for Q in pts:
                cx.trans(2)
                g = '%s, Q=%s' % (e, Q)
                cx.eq('P+Q, ' + g, model[P, Q], lambda: xy(fresh(P) + fresh(Q)))
                cx.eq('P-Q, ' + g, model[P, neg(Q)], lambda: xy(fresh(P) - fresh(Q)))
                if chain:
                    S = cx.call(g, lambda: fresh(P) + fresh(Q))
                    cx.eq('(P+Q).double(), ' + g, model[model[P, Q], model[P, Q]], lambda: xy(S.double()))
                    cx.eq('-(P+Q), ' + g, neg(model[P, Q]), lambda: xy(-S))
                    for R in pts:
                        cx.trans(2)
                        w = model[model[P, Q], R]
                        cx.eq('(P+Q)+R, %s, R=%s' % (g, R), w, lambda: xy(S + fresh(R)))
                        cx.eq('P+(Q+R), %s, R=%s' % (g, R), w, lambda: xy(fresh(P) + (fresh(Q) + fresh(R))))
            N = len(pts)
            cyc, Q = [(0, 1)], P
            while Q != (0, 1):
                cyc.append(Q)
                Q = model[Q, P]
            for k in range(lo * N - 3, hi * N + 4):
                cx.trans()
                cx.eq('k=%d, %s' % (k, e), cyc[k % len(cyc)], lambda: xy(k * o))
                if chain:
                    cx.eq('P*k, k=%d, %s' % (k, e), cyc[k % len(cyc)], lambda: xy(o * long(k)))
            cx.eq('P unchanged, ' + e, P, lambda: xy(o))
        cx.traces += 1

    cx.group('all complete curves, triples and scalars')
    for p in (3, 5, 7):
        for a, d in curvelib.ed_params(p):
            small(p, a, d, -2, 2, True)
    cx.group('all complete curves, pairs and scalars')
    for p in cx.thorough and (11, 13, 17, 19, 23, 29) or (11, 13, 17):
        for a, d in curvelib.ed_params(p):
            small(p, a, d, -1, 1, cx.thorough and p < 14)
    for p in (19, 23):
        for a, d in curvelib.ed_params(p):
            if (a == 1 or a == p - 1 or a * d % 7 == 1) and not cx.thorough:
                small(p, a, d, 0, 1, False)
    cx.group('larger fields and unreduced coefficients')
    for p, ads in ((101, [(1, 2), (100, 2), (4, 3)]), (103, [(1, 3), (1, -3 % 103)]), (13, [(-1, 2), (1, -2), (14, 5 + 13), (4, -7)]), (11, [(1, -1), (1, 13), (3, -1)])):
        for a, d in ads:
            if ref.euler(a, p) == 1 and ref.euler(d, p) == -1:
                small(p, a, d, 0, p < 50 and 1 or 0, False)
    cx.group('long runs of scalars')
    for p, a, d in ((1019, 1, 2), (4093, 4, 2)):
        assert ref.euler(a, p) == 1 and ref.euler(d, p) == -1
        x = 3
        while 1:
            t = (1 - a * x * x) * ref.modinv(1 - d * x * x, p) % p
            y = ref.sqrt_mod(t, p)
            if y is not None and y != 0:
                break
            x += 1
        P = (x, y)
        add = lambda X, Y: ref.ed_add(p, a, d, X, Y)
        for s in range(0, cx.thorough and 20000 or 2400, 100):
            if cx.take():
                c = curvelib.ed_class(p, a, d)()
                o = c.point(*P)
                Q = ref.mul(add, (0, 1), P, s)
                for k in range(s, s + 100):
                    cx.trans()
                    cx.eq('k=%d, p=%d' % (k, p), Q, lambda: xy(k * o))
                    Q = add(Q, P)
                cx.traces += 1
    cx.group('scalars next to powers of two')
    for p, a, d in ((11, 1, 2), (13, 4, 2), (17, 16, 3)):
        assert ref.euler(a, p) == 1 and ref.euler(d, p) == -1
        pts = curvelib.ed_points(p, a, d)
        add = lambda X, Y: ref.ed_add(p, a, d, X, Y)
        for j in list(curvelib.LONG) + (cx.thorough and range(1, 640) or range(1, 34) + [62, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 384, 511, 512, 521]):
            if cx.take():
                c = curvelib.ed_class(p, a, d)()
                for P in pts[:5]:
                    for k in [(1 << j) - 1, (1 << j), (1 << j) + 1, (1 << j) // 3]:
                        cx.trans(2)
                        w = ref.mul(add, (0, 1), P, k)
                        cx.eq('k=%d, P=%s, p=%d' % (k, P, p), w, lambda: xy(k * c.point(*P)))
                        cx.eq('k=%d, P=%s, p=%d' % (-k, P, p), (-w[0] % p, w[1]), lambda: xy(c.point(*P) * -k))
                cx.traces += 1

    for cls in curvelib.shipped('ed'):
        p, a, d, n, h = cls.p, cls.a, cls.d, cls.n, cls.h
        G = (cls.xG % p, cls.yG % p)
        add = lambda X, Y: ref.ed_add(p, a, d, X, Y)
        neg = lambda P: (-P[0] % p, P[1])
        name = cls.__name__
        cx.group('shipped curves, pairs')
        if cx.take():
            c = cls()
            T2 = (0, p - 1)
            pts = [(0, 1), T2, G, neg(G), add(G, G), add(G, T2), ref.mul(add, (0, 1), G, 0x1234567), add(add(G, G), G)]
            r = ref.sqrt_mod(ref.modinv(a, p), p)
            if r is not None:
                pts += [(r, 0), (p - r, 0), add((r, 0), G)]
            for P in pts:
                cx.state((name, P))
                o = c.point(*P)
                cx.eq('-P, %s, P=%s' % (name, P), neg(P), lambda: xy(-o))
                cx.eq('P.double(), %s, P=%s' % (name, P), add(P, P), lambda: xy(o.double()))
                for Q in pts:
                    cx.trans(2)
                    cx.eq('P+Q, %s, P=%s Q=%s' % (name, P, Q), add(P, Q), lambda: xy(o + c.point(*Q)))
                    cx.eq('P-Q, %s, P=%s Q=%s' % (name, P, Q), add(P, neg(Q)), lambda: xy(o - c.point(*Q)))
            cx.traces += 1
        cx.group('shipped curves, scalars')
        ks = [0, 1, 2, 3, 7, n - 1, n, n + 1, n // 2, h * n, -1, -n, -5, ref.num_be(ref.octets(n.bit_length() // 8, 7)), (1 << n.bit_length()) + 99]
        if cx.thorough:
            ks += [(1 << j) + e for j in range(2, n.bit_length(), 3) for e in (-1, 1)]
        for k in ks:
            if cx.take():
                c = cls()
                cx.trans()
                w = ref.mul(add, (0, 1), k >= 0 and G or neg(G), abs(k))
                cx.eq('%s, k=%#x' % (name, k), w, lambda: xy(k * c.generator()))
                cx.traces += 1
