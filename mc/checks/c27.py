# Encoding of points, and recovery of y from x
import mclib, ref, curvelib
from curvelib import point


def run(cx):
    def encodings(c, name, pts, size):
        seen = {}
        for P in pts:
            if P is None:
                continue
            w = ref.be(P[0], size) + ref.be(P[1], size)
            o = cx.call(name, point, c, P)
            e = cx.eq('encode() of %s, %s' % (P, name), w, lambda: o.encode())
            cx.eq("encode('raw') of %s, %s" % (P, name), w, lambda: o.encode('raw'))
            cx.eq('encode() of %s as a result, %s' % (P, name), w, lambda: (--o).encode())
            cx.ok('encode() of %s differs from other points, %s' % (P, name), seen.setdefault(e, P) == P, seen.get(e), P)
        for k in ('compressed', 'RAW', '', None, 'x', 'raw ', 0):
            cx.refused('encode(%r), %s' % (k, name), lambda: o.encode(k))

    cx.group('encoding, all points of small curves')
    sizes = [(p, 1) for p in (5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 127, 131, 241, 251)] + [(257, 2), (263, 2), (509, 2)]
    if cx.thorough:
        sizes += [(1009, 2), (2039, 2), (4093, 2)]
    for p, size in sizes:
        few = p > 13
        for a in few and (1, p - 3) or range(p):
            for b in few and (1, 5) or range(p):
                if curvelib.sw_ok(p, a, b) and cx.take():
                    encodings(curvelib.sw_class(p, a, b)(), 'p=%d a=%d b=%d' % (p, a, b), curvelib.sw_points(p, a, b), size)
        for a, d in curvelib.ed_params(min(p, 300))[:40][::20] if few and p < 300 else few and [(1, 0)] or curvelib.ed_params(p):
            if d and cx.take():
                encodings(curvelib.ed_class(p, a, d)(), 'p=%d a=%d d=%d' % (p, a, d), curvelib.ed_points(p, a, d), size)
        for a in few and (0, 3, 6) or range(p):
            if (a * a - 4) % p and cx.take():
                encodings(curvelib.mont_class(p, a)(), 'p=%d a=%d' % (p, a), curvelib.mont_points(p, a), size)
    for p in (65521, 65537, 16777213, 16777259):
        for a, b in ((p - 3, 1), (0, 7)):
            size = (p.bit_length() + 7) // 8
            for start in (0, 200, 250, 65280, p - 300):
                if start < p and cx.take():
                    pts = curvelib.lift_sw(p, a, b, 20, start)
                    encodings(curvelib.sw_class(p, a, b)(), 'p=%d a=%d b=%d' % (p, a, b), pts + [ref.neg(p, P) for P in pts], size)

    cx.group('encoding, shipped curves')
    for kind in ('sw', 'mont', 'ed'):
        for cls in curvelib.shipped(kind):
            p = cls.p
            size = (p.bit_length() + 7) // 8
            G = (cls.xG, cls.yG)
            steps = cx.thorough and 4000 or 400
            for part in range(2):
                if not cx.take():
                    continue
                c = cls()
                if kind == 'sw':
                    add = lambda P, Q: ref.sw_add(p, cls.a, P, Q)
                    pts = curvelib.lift_sw(p, cls.a, cls.b, 6) + curvelib.lift_sw(p, cls.a, cls.b, 2, p - 60)
                elif kind == 'mont':
                    add = lambda P, Q: ref.mont_add(p, cls.a, P, Q)
                    pts = [(0, 0)]
                else:
                    add = lambda P, Q: ref.ed_add(p, cls.a, cls.d, P, Q)
                    pts = [(0, 1), (0, p - 1)]
                pts.append(G)
                S = part and ref.mul(add, kind == 'ed' and (0, 1) or None, G, 7 * steps) or G
                P = S
                for i in range(steps):     # keep the short ones: leading zero octets
                    P = add(P, G)
                    if P is not None and (min(P) >> (8 * size - 9 if p.bit_length() % 8 == 0 else p.bit_length() - 8)) == 0:
                        pts.append(P)
                    elif i < 3:
                        pts.append(P)
                encodings(c, cls.__name__, pts, size)

    def recover(c, name, xs, p, a, b):
        for x in xs:
            v = (x * x * x + a * x + b) % p
            if v == 0 or ref.euler(v, p) == 1:
                r = cx.call('x=%d, %s' % (x, name), c.y_from_x, x)
                cx.ok('y of x=%d, %s' % (x, name), not isinstance(r, mclib.Raised) and 0 <= r < p and r * r % p == v, r, 'a square root of %d' % v)
                if not isinstance(r, mclib.Raised):
                    cx.true('(x, y) is on the curve, x=%d, %s' % (x, name), lambda: bool(c.on_curve(c.point(x, r))))
            else:
                cx.refused('x=%d, %s' % (x, name), c.y_from_x, x)

    cx.group('y from x, small curves')
    for p in cx.thorough and (5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47) or (5, 7, 11, 13, 17, 19, 23):
        for a in range(p):
            for b in range(p):
                if curvelib.sw_ok(p, a, b) and cx.take():
                    c = curvelib.sw_class(p, a, b)()
                    recover(c, 'p=%d a=%d b=%d' % (p, a, b), range(p), p, a, b)
                    if a == 0:
                        recover(curvelib.sw_class(p, a, b, True)(), 'p=%d b=%d koblitz' % (p, b), range(p), p, a, b)
    for p in ref.sieve(cx.thorough and 2000 or 420):
        for a, b in ((p - 3, 1), (0, 7), (5, 0)):
            if p > 23 and curvelib.sw_ok(p, a, b) and cx.take():
                recover(curvelib.sw_class(p, a, b)(), 'p=%d a=%d b=%d' % (p, a, b), range(p), p, a, b)
    cx.group('y from x, shipped curves')
    for cls in curvelib.shipped('sw'):
        p, a, b = cls.p, cls.a, cls.b
        xs = range(6) + [p - 1, p - 2, cls.xG, cls.xG + 1] + [ref.num_be(ref.octets((p.bit_length() - 1) // 8, i)) for i in range(cx.thorough and 60 or 3)]
        if p % 8 == 1 and not cx.thorough:
            xs = xs[:4] + [cls.xG]
        for x in xs:
            if cx.take():
                recover(cls(), cls.__name__, [x], p, a, b)
                if x == cls.xG:
                    r = cx.call(cls.__name__, cls.y_from_x, x)
                    cx.ok('y of the generator of %s, by the class' % cls.__name__, r in (cls.yG, p - cls.yG), r, cls.yG)
