# The group law of Weierstrass curves: every pair of points of every small
# curve, results used as operands again, and the shipped curves.
import mclib, ref, curvelib
from curvelib import tup, point


def run(cx):
    def pairs(c, name, pts, add, model):
        """ every operation on every pair """
        p = c.p
        fresh = lambda P: point(c, P)
        for P in pts:
            cx.state((name, P))
            d = '%s, P=%s' % (name, P)
            cx.eq('-P, ' + d, ref.neg(p, P), lambda: tup(c, -fresh(P)))
            cx.eq('P.double(), ' + d, model[P, P], lambda: tup(c, fresh(P).double()))
            o = cx.call(d, fresh, P)
            cx.eq('P+P, one object, ' + d, model[P, P], lambda: tup(c, o + o))
            cx.eq('P-P, one object, ' + d, None, lambda: tup(c, o - o))
            cx.eq('P unchanged, ' + d, P, lambda: tup(c, o))
            for Q in pts:
                cx.trans(2)
                e = '%s, Q=%s' % (d, Q)
                cx.eq('P+Q, ' + e, model[P, Q], lambda: tup(c, fresh(P) + fresh(Q)))
                cx.eq('P-Q, ' + e, model[P, ref.neg(p, Q)], lambda: tup(c, fresh(P) - fresh(Q)))

    def small(p, a, b, koblitz=False, chain=False):
        if not ref_ok(p, a, b) or not cx.take():
            return
        c = curvelib.sw_class(p, a, b, koblitz)()
        pts = curvelib.sw_points(p, a, b)
        add = lambda P, Q: ref.sw_add(p, a, P, Q)
        model = curvelib.table(pts, add)
        name = 'p=%d a=%d b=%d%s' % (p, a, b, koblitz and ' koblitz' or '')
        for label, I in (('IDENTITY', c.IDENTITY), ('identity()', c.identity()), ('point(None, None)', c.point(None, None))):
            cx.ok('%s is the identity, %s' % (label, name), tup(c, I) is None, I)
            for P in pts:
                cx.eq('P+%s, P=%s, %s' % (label, P, name), P, lambda: tup(c, point(c, P) + I))
                cx.eq('%s+P, P=%s, %s' % (label, P, name), P, lambda: tup(c, I + point(c, P)))
                cx.eq('%s-P, P=%s, %s' % (label, P, name), ref.neg(p, P), lambda: tup(c, I - point(c, P)))
            cx.eq('-%s, %s' % (label, name), None, lambda: tup(c, -I))
            cx.eq('%s.double(), %s' % (label, name), None, lambda: tup(c, I.double()))
        pairs(c, name, pts, add, model)
        if chain:
            for P in pts:
                for Q in pts:
                    S = cx.call(name, lambda: point(c, P) + point(c, Q))
                    for R in pts:
                        cx.trans(2)
                        d = '%s, P=%s Q=%s R=%s' % (name, P, Q, R)
                        w = model[model[P, Q], R]
                        cx.eq('(P+Q)+R, ' + d, w, lambda: tup(c, S + point(c, R)))
                        cx.eq('P+(Q+R), ' + d, w, lambda: tup(c, point(c, P) + (point(c, Q) + point(c, R))))
                    cx.eq('-(P+Q), %s, P=%s Q=%s' % (name, P, Q), ref.neg(p, model[P, Q]), lambda: tup(c, -S))
                    cx.eq('(P+Q).double(), %s, P=%s Q=%s' % (name, P, Q), model[model[P, Q], model[P, Q]], lambda: tup(c, S.double()))
                    cx.eq('(P-Q)+Q, %s, P=%s Q=%s' % (name, P, Q), P, lambda: tup(c, (point(c, P) - point(c, Q)) + point(c, Q)))
        cx.traces += 1

    ref_ok = curvelib.sw_ok
    cx.group('all curves and triples of points')
    for p in (3, 5, 7):
        for a in range(p):
            for b in range(p):
                small(p, a, b, chain=True)
                if a == 0:
                    small(p, a, b, koblitz=True, chain=True)
    cx.group('all curves and pairs of points')
    for p in cx.thorough and (11, 13, 17, 19, 23, 29, 31, 37, 41) or (11, 13, 17, 19):
        for a in range(p):
            for b in range(p):
                small(p, a, b)
                if a == 0:
                    small(p, a, b, koblitz=True)
    cx.group('curves of larger fields')
    for p, ab in ((23, [(a, b) for a in range(23) for b in range(0, 23, 7)]), (43, [(0, b) for b in range(43)] + [(40, b) for b in range(0, 43, 6)]),
                  (101, [(98, 1), (0, 5), (7, 0)]), (127, [(124, 3), (1, 0)]), (257, cx.thorough and [(254, 2), (0, 1), (9, 0)] or [])):
        for a, b in ab:
            small(p, a, b)
    cx.group('coefficients given as negative or unreduced integers')
    for p in (7, 11, 13):
        for a, b in ((-3, 1), (-3, -1), (p - 3, p + 1), (2 * p + 1, -2), (1, p)):
            small(p, a, b)

    cx.group('shipped curves')
    for cls in curvelib.shipped('sw'):
        if cx.take():
            c = cls()
            p, a = c.p, c.a
            f = ref.SWFast(p, a)
            G = (c.xG, c.yG)
            n = c.n
            pts = [None] + [f.mul(G, k) for k in (1, 2, 3, n - 1, n - 2, (n + 1) // 2, (n - 1) // 2, 0x123456789abcdef)]
            pts += curvelib.lift_sw(p, a, c.b, 2) + curvelib.lift_sw(p, a, c.b, 1, p - 40)
            if c.b % p and c.h > 1:   # a point of order two: a root of the cubic, from the cofactor
                for L in curvelib.lift_sw(p, a, c.b, 24):
                    T = f.mul(L, n)
                    while T is not None and f.mul(T, 2) is not None:
                        T = f.mul(T, 2)
                    if T is not None:
                        pts.append(T)
                        break
            if cx.thorough:
                pts += [f.mul(G, k * k * 0x1234567 + (1 << k)) for k in range(20)]
            add = lambda P, Q: ref.sw_add(p, a, P, Q)
            model = curvelib.table(pts, add)
            for P in pts:
                model[P, ref.neg(p, P)] = None
                for Q in pts:
                    model[P, ref.neg(p, Q)] = add(P, ref.neg(p, Q))
            pairs(c, cls.__name__, pts, add, model)
            cx.traces += 1
