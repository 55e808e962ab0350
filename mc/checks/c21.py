# Scalar multiples on Weierstrass curves
import mclib, ref, curvelib
from curvelib import tup, point


def run(cx):
    def multiples(c, p, a, P, ks, name, both=True):
        """ k*P for all k in ks; the model adds up to the order of P """
        add = lambda X, Y: ref.sw_add(p, a, X, Y)
        cyc, Q = [None], P
        while Q is not None:
            cyc.append(Q)
            Q = add(Q, P)
        m = len(cyc)
        for k in ks:
            cx.trans()
            w = cyc[k % m]
            d = 'k=%d, P=%s, %s' % (k, P, name)
            cx.eq('k*P, ' + d, w, lambda: tup(c, k * point(c, P)))
            if both:
                cx.eq('P*k, ' + d, w, lambda: tup(c, point(c, P) * k))
                cx.eq('long k*P, ' + d, w, lambda: tup(c, long(k) * point(c, P)))
        cx.state((name, P))
        cx.traces += 1

    def small(p, a, b, lo, hi, points=None, both=True, koblitz=False):
        if not curvelib.sw_ok(p, a, b) or not cx.take():
            return
        c = curvelib.sw_class(p, a, b, koblitz)()
        pts = curvelib.sw_points(p, a, b)
        name = 'p=%d a=%d b=%d%s' % (p, a, b, koblitz and ' koblitz' or '')
        for P in points is None and pts or pts[1:1 + points]:
            multiples(c, p, a, P, range(lo * len(pts) - 3, hi * len(pts) + 4), name, both)

    cx.group('all curves, points and scalars')
    for p in (3, 5, 7, 11):
        for a in range(p):
            for b in range(p):
                small(p, a, b, -2, 2, both=cx.thorough or p < 11)
                if a == 0:
                    small(p, a, b, -2, 2, koblitz=True)
    for p in cx.thorough and (13, 17, 19, 23, 29) or (13,):
        for a in range(p):
            for b in range(p):
                small(p, a, b, -1, 1, both=cx.thorough)
    cx.group('larger fields')
    for p, ab in ((17, [(a, b) for a in range(1, 17, 6) for b in range(17)]), (23, [(a, 5) for a in range(23)] + [(20, b) for b in range(0, 23, 9)]),
                  (101, [(98, 1), (0, 7)]), (131, [(5, 0)])):
        for a, b in ab:
            small(p, a, b, -1, 1, points=p > 100 and (cx.thorough and 100 or 6) or None, both=False)
    cx.group('long runs of scalars')
    for p, a, b, x0 in ((1009, 1006, 1, 3), (4093, 0, 11, 5), (65537, 65534, 9, 2)):
        P = curvelib.lift_sw(p, a, b, 1, x0)[0]
        top = cx.thorough and 60000 or 4200
        for s in range(0, top, 150):
            if cx.take():
                c = curvelib.sw_class(p, a, b)()
                add = lambda X, Y: ref.sw_add(p, a, X, Y)
                Q = ref.mul(add, None, P, s)
                o = point(c, P)
                for k in range(s, s + 150):
                    cx.trans()
                    cx.eq('k=%d, P=%s, p=%d' % (k, P, p), Q, lambda: tup(c, k * o))
                    if k % 5 == 0:
                        cx.eq('k=%d, P=%s, p=%d' % (-k, P, p), ref.neg(p, Q), lambda: tup(c, o * -k))
                    Q = add(Q, P)
                cx.eq('P is unchanged by its multiples, p=%d' % p, P, lambda: tup(c, o))
                cx.traces += 1
    cx.group('scalars next to powers of two')
    for p, a, b in ((11, 8, 1), (13, 0, 3), (17, 2, 2), (23, 1, 0)):
        for j in range(1, 640):
            if j > 70 and not cx.thorough and j % 16 > 1:
                continue
            if not cx.take():
                continue
            c = curvelib.sw_class(p, a, b)()
            pts = curvelib.sw_points(p, a, b)
            for P in pts[:6]:
                multiples(c, p, a, P, [s * ((1 << j) + e) for s in (1, -1) for e in (-3, -1, 0, 1, 3)] + [(1 << j) // 3, (1 << j) * 2 // 3, (1 << j) * 5 // 7],
                          'p=%d a=%d b=%d' % (p, a, b), both=False)
    cx.group('scalars of thousands of bits')
    for p, a, b in ((11, 8, 1), (23, 1, 0)):
        pts = curvelib.sw_points(p, a, b)
        for j in curvelib.LONG:
            if cx.take():
                c = curvelib.sw_class(p, a, b)()
                for P in pts[:3]:
                    multiples(c, p, a, P, [s * k for k in ((1 << j) + 1, (1 << j) // 3, ref.num_be(ref.octets(j // 8, 5))) for s in (1, -1)],
                              'p=%d a=%d b=%d' % (p, a, b), both=False)
    cx.group('sums of scalars and multiples of multiples')
    for p, a, b in ((11, 8, 1), (13, 0, 3), (23, 20, 3)):
        pts = curvelib.sw_points(p, a, b)
        for P in pts[:8]:
            if cx.take():
                c = curvelib.sw_class(p, a, b)()
                o = point(c, P)
                add = lambda X, Y: ref.sw_add(p, a, X, Y)
                for k in range(-8, 9):
                    for m in range(-8, 9):
                        cx.trans(4)
                        d = 'k=%d m=%d P=%s p=%d' % (k, m, P, p)
                        S = cx.call(d, lambda: k * o + m * o)
                        cx.eq('k*P+m*P, ' + d, ref.mul(add, None, k + m >= 0 and P or ref.neg(p, P), abs(k + m)), lambda: tup(c, S))
                        cx.eq('k*(m*P), ' + d, ref.mul(add, None, k * m >= 0 and P or ref.neg(p, P), abs(k * m)), lambda: tup(c, k * (m * o)))

    for cls in curvelib.shipped('sw'):
        p, a, n = cls.p, cls.a, cls.n
        G = (cls.xG, cls.yG)
        f = ref.SWFast(p, a)
        bits = n.bit_length()
        ks = [0, 1, 2, 3, 5, 7, -1, -2, n - 1, n, n + 1, ref.num_be(ref.octets(bits // 8, 4)), (1 << bits) - 1, -n]
        if bits < 300 or cx.thorough:
            ks += [2 * n + 1, (n - 1) // 2, (n + 1) // 2, (1 << bits) // 3, (1 << (bits + 24)) + 12345, n - 2]
        if cx.thorough:
            ks += [(1 << j) + e for j in range(2, bits + 2) for e in (-1, 0, 1)] + [ref.num_be(ref.octets(bits // 8, s)) for s in range(10, 60)]
        kb = [ks[i:i + 4] for i in range(0, len(ks), 4)]
        cx.group('multiples of shipped generators')
        for part in kb:
            if cx.take():
                c = cls()
                for k in part:
                    w = f.mul(k >= 0 and G or ref.neg(p, G), abs(k))
                    cx.eq('%s, k=%#x' % (cls.__name__, k), w, lambda: tup(c, k * c.generator()))
                    cx.trans()
                    cx.state((cls.__name__, w))
                cx.traces += 1
        cx.group('shipped curves, other points')
        if cx.take():
            c = cls()
            P = curvelib.lift_sw(p, a, cls.b, 1)[0]
            for k in bits < 300 and (3, -5, cls.h * n, cls.h * n - 1) or (3, -5, cls.h * n):
                cx.trans()
                cx.eq('%s, k=%#x, P=%s' % (cls.__name__, k, P), f.mul(k >= 0 and P or ref.neg(p, P), abs(k)), lambda: tup(c, point(c, P) * k))
            cx.eq('%s, identity' % cls.__name__, None, lambda: tup(c, n * c.IDENTITY))
            cx.traces += 1
