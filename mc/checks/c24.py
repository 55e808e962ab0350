# Both Montgomery ladders against the affine law
import mclib, ref, curvelib
from curvelib import point


def run(cx):
    def both(c, desc, w, k, P):
        cx.trans(2)
        cx.eq('montgomery_ladder, ' + desc, w, lambda: c.montgomery_ladder(k, P))
        cx.eq('montgomery_ladder2, ' + desc, w, lambda: c.montgomery_ladder2(k, P))

    def xof(P):
        return 0 if P is None else P[0]

    def small(p, a, lo, hi, points=None):
        if (a * a - 4) % p == 0 or not cx.take():
            return
        c = curvelib.mont_class(p, a)()
        pts = curvelib.mont_points(p, a)
        name = 'p=%d a=%d' % (p, a)
        for P in pts[1:points]:
            cx.state((name, P))
            cyc, Q = [None], P
            while Q is not None:
                cyc.append(Q)
                Q = ref.mont_add(p, a, Q, P)
            o = point(c, P)
            for k in range(lo * len(pts) - 3, hi * len(pts) + 4):
                both(c, 'k=%d, P=%s, %s' % (k, P, name), xof(cyc[k % len(cyc)]), k, o)
            both(c, 'long k, P=%s, %s' % (P, name), xof(cyc[3 % len(cyc)]), 3L, o)
            cx.ok('P unchanged, %s, %s' % (P, name), (o.x, o.y) == P, (o.x, o.y), P)
        cx.traces += 1

    cx.group('all curves, points and scalars')
    for p in cx.thorough and (3, 5, 7, 11, 13, 17, 19, 23) or (3, 5, 7, 11, 13, 17):
        for a in range(p):
            small(p, a, -2, 3)
    for p in cx.thorough and (29, 31, 37, 41, 43, 47, 53, 59, 61) or (19, 23, 29):
        for a in range(p):
            small(p, a, 0, 2)
    cx.group('larger fields and unreduced coefficients')
    for p, cs in ((101, [3, 6, 98]), (103, [0, 5, 101]), (13, [-1, -6, 16, 26]), (11, [-5, 12, 22, -11]), (19, [-4, 23]), (251, cx.thorough and range(3, 20) or [])):
        for a in cs:
            small(p, a, -1, 1, None if p < 100 or cx.thorough else 25)
    cx.group('long runs of scalars')
    for p, a in ((1009, 6), (4093, 486), (65537, 6)):
        x = 3
        while ref.sqrt_mod(x * x * x + a * x * x + x, p) is None:
            x += 1
        P = (x, ref.sqrt_mod(x * x * x + a * x * x + x, p))
        add = lambda X, Y: ref.mont_add(p, a, X, Y)
        for s in range(0, cx.thorough and 40000 or 4200, 150):
            if cx.take():
                c = curvelib.mont_class(p, a)()
                o = point(c, P)
                Q = ref.mul(add, None, P, s)
                for k in range(s, s + 150):
                    both(c, 'k=%d, p=%d' % (k, p), xof(Q), k, o)
                    Q = add(Q, P)
                cx.traces += 1
    cx.group('scalars next to powers of two')
    for p, a in ((11, 6), (13, 6), (17, 3)):
        pts = curvelib.mont_points(p, a)
        add = lambda X, Y: ref.mont_add(p, a, X, Y)
        for j in list(curvelib.LONG) + (cx.thorough and range(1, 640) or range(1, 66) + range(66, 640, 16) + [127, 128, 129, 255, 256, 257, 511, 512, 521]):
            if cx.take():
                c = curvelib.mont_class(p, a)()
                for P in pts[1:6]:
                    for k in [(1 << j) - 1, (1 << j), (1 << j) + 1, (1 << j) // 3, 2 * (1 << j) // 3]:
                        w = xof(ref.mul(add, None, P, k))
                        both(c, 'k=%d, P=%s, p=%d' % (k, P, p), w, k, point(c, P))
                        both(c, 'k=%d, P=%s, p=%d' % (-k, P, p), w, -k, point(c, P))
                cx.traces += 1

    for cls in curvelib.shipped('mont'):
        p, a, n, h = cls.p, cls.a, cls.n, cls.h
        G = (cls.xG, cls.yG)
        add = lambda X, Y: ref.mont_add(p, a, X, Y)
        name = cls.__name__
        cx.group('shipped curves')
        pts = [G, ref.neg(p, G), (0, 0), add(G, (0, 0))]
        r = ref.sqrt_mod(a + 2, p)
        if r is not None:
            pts += [(1, r), add((1, r), G)]
        x = p - 1
        while len(pts) < 7:
            y = ref.sqrt_mod(x * x * x + a * x * x + x, p)
            if y is not None:
                pts.append((x, y))
            x -= 1
        b = n.bit_length()
        ks = [0, 1, 2, 3, 4, 5, 7, 8, 9, n - 1, n, n + 1, n // 2, h * n, h * n - 1, h * n + 1, 2 * h * n + 3, -1, -n, -5, ref.num_be(ref.octets(b // 8, 7)),
              (1 << b) + 99, (1 << b) - 1, 1 << (b - 1), p, p - 1, (1 << p.bit_length()) - 1, (1 << (b + 70)) // 3]
        ks += [(1 << j) + e for j in range(2, b + 8, cx.thorough and 1 or 32) for e in (-1, 0, 1)]
        for k in ks:
            for i, P in enumerate(pts):
                if (i == 0 or abs(k) < 10 or cx.thorough or k in (n - 1, n, h * n)) and cx.take():
                    c = cls()
                    both(c, '%s, k=%#x, P=%s' % (name, k, P), xof(ref.mul(add, None, k >= 0 and P or ref.neg(p, P), abs(k))), k, point(c, P))
                    cx.state((name, P))
                    cx.traces += 1

    cx.group('X25519 of RFC 7748')
    C = mclib.load('ecc.curves').Curve25519
    p = 2 ** 255 - 19

    def clamp(s):
        s = [ord(x) for x in s]
        s[0] &= 248
        s[31] = s[31] & 127 | 64
        return ref.num_le(''.join([chr(x) for x in s]))
    # agreement of both parties for all pairs of scalars, as RFC 7748 6.1 uses it
    scal = [clamp(ref.octets(32, 300 + i)) for i in range(cx.thorough and 24 or 8)]
    y = lambda x: ref.sqrt_mod(x * x * x + 486662 * x * x + x, p)
    for i, s in enumerate(scal):
        for j, t in enumerate(scal):
            if j >= i and cx.take():
                c = C()
                for lname in ('montgomery_ladder', 'montgomery_ladder2'):
                    ladder = getattr(c, lname)
                    g = c.generator()
                    A = cx.call('public key', lambda: ladder(s, g))
                    B = cx.call('public key', lambda: ladder(t, g))
                    d = '%s, scalars %d and %d' % (lname, i, j)
                    w = ref.mul(lambda X, Y: ref.mont_add(p, 486662, X, Y), None, (C.xG, C.yG), s * t)[0]
                    cx.eq('shared secret of the one, ' + d, w, lambda: ladder(t, c.point(A, y(A))))
                    cx.eq('shared secret of the other, ' + d, w, lambda: ladder(s, c.point(B, y(B))))
                cx.traces += 1
    # (scalar, x-coordinate, result) of the Java platform and RFC 7748 6.1
    nine = '\x09' + 31 * '\0'
    cases = [(x.decode('hex'), 'scalar %d of RFC 7748' % i, nine) for i, x in enumerate((
        '77076d0a7318a57d3c16c17251b26645df4c2f87ebc0992ab177fba51db92c2a', '5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb'))]
    cases += [(cases[0][0], 'shared secret of RFC 7748', ref.x25519_jce(cases[1][0], nine))]
    for i in range(cx.thorough and 400 or 40):
        cases.append((ref.octets(32, 800 + i), 'scalar %d' % i, nine if i % 3 == 0 else ref.x25519_jce(ref.octets(32, 900 + i), nine)))
    for s, d, u in cases:
        if cx.take():
            c = C()
            x = ref.num_le(u)
            w = ref.num_le(ref.x25519_jce(s, u))
            both(c, 'X25519, ' + d, w, clamp(s), c.point(x, y(x)))
            cx.traces += 1
