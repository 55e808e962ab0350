# Domain parameters and lists of the shipped curves
import json, os
import mclib, ref, curvelib


def seed_value(seed, p):
    """ ANSI X9.62 A.3.3, verifiably random curves: the value c of the seed """
    import hashlib
    h = lambda i: int(hashlib.sha1(('%040x' % ((seed + i) % (1 << 160))).decode('hex')).hexdigest(), 16)
    v, w = divmod(p.bit_length() - 1, 160)
    c = h(0) & ((1 << w) - 1)
    for i in range(1, v + 1):
        c = (c << 160) | h(i)
    return c


def scaled_e(bits):
    s, t, k = 0, 1 << (bits + 64), 0
    while t:
        s, k = s + t, k + 1
        t //= k
    return s >> 64


def scaled_pi(bits):
    def atan(n):
        t = (1 << (bits + 64)) // n
        s, k, sign = 0, 1, 1
        while t:
            s += sign * (t // k)
            t, k, sign = t // (n * n), k + 2, -sign
        return s
    return (4 * (4 * atan(5) - atan(239))) >> 64


def run(cx):
    C = mclib.load('ecc.curves')
    E = mclib.load('ecc.ecc')
    table = json.load(open(os.path.join(mclib.MC, 'curve_table.json')))
    families = dict(smallWeierstrassCurves=E.SmallWeierstrassCurveFp, koblitzCurves=E.KoblitzCurveFp, twistedEdwardsCurves=E.TwistedEdwardsCurveFp,
                    edwardsCurves=E.EdwardsCurveFp, montgomeryCurves=E.MontgomeryCurveFp)
    num = lambda s: int(s, 16)

    # every curve the library offers: those of the table, and whatever else the lists hold
    names = sorted([str(n) for n in table])
    extra = sorted(set([c.__name__ for c in C.allCurves]) - set(names))
    for name in names + extra:
        cls = getattr(C, name, None)
        t = table.get(name)
        cx.group('published values')
        if cx.take():
            cx.ok('class %s exists' % name, cls is not None)
        if cls is None:
            continue
        p = cls.p
        if t is not None and cx.take():
            for k in ('p', 'n', 'h', 'xG', 'yG'):
                cx.eq('%s of %s' % (k, name), num(t[k]), getattr, cls, k)
            for k in ('a', 'b', 'd'):
                if k in t:
                    cx.eq('%s of %s' % (k, name), num(t[k]) % p, lambda: getattr(cls, k) % p)
            for k in ('seed', 'seed_c', 'seed_p', 'seed_ab', 'z', 'q'):
                if k in t:
                    cx.eq('%s of %s' % (k, name), num(t[k]), getattr, cls, k)
            cx.eq('curveId of %s' % name, t['curveId'], getattr, cls, 'curveId')
            cx.eq('oid of %s' % name, t['oid'] and tuple(t['oid']), lambda: cls.oid and tuple(cls.oid) or None)
            cx.eq('strength of %s' % name, t['strength'], getattr, cls, 'strength')
        kind = t is not None and t['kind'] or (issubclass(cls, E.TwistedEdwardsCurveFp) and 'ed' or issubclass(cls, E.MontgomeryCurveFp) and 'mont' or 'sw')
        cx.group('attributes')
        if cx.take():
            for k in ('curveId', 'strength', 'oid', 'p', 'n', 'h', 'xG', 'yG'):
                cx.ok('%s has %s' % (name, k), hasattr(cls, k))
            c = cx.call(name, cls)
            for k in ('p', 'n', 'h', 'xG', 'yG', 'a', 'b', 'd'):
                if hasattr(cls, k):
                    cx.eq('%s of an object of %s' % (k, name), getattr(cls, k), lambda: getattr(c, k))
            cx.eq('coordinate size of %s' % name, (p.bit_length() + 7) // 8, lambda: c.coord_size)
            base = {'ed': E.TwistedEdwardsCurveFp, 'mont': E.MontgomeryCurveFp, 'sw': E.SmallWeierstrassCurveFp}[kind]
            cx.ok('%s is a curve of its family' % name, isinstance(c, base))
        cx.group('consistency')
        if cx.take():
            n, h, x, y = cls.n, cls.h, cls.xG, cls.yG
            cx.ok('p of %s is prime' % name, ref.is_probable_prime(p), p)
            cx.ok('n of %s is prime' % name, ref.is_probable_prime(n), n)
            cx.ok('Hasse bound, %s' % name, (h * n - p - 1) ** 2 <= 4 * p, h * n)
            cx.ok('generator of %s is reduced' % name, 0 <= x < p and 0 <= y < p, (x, y))
            if kind == 'sw':
                a, b = cls.a, cls.b
                values = 'a=%d b=%d' % (a, b)
                sing = (4 * a ** 3 + 27 * b * b) % p == 0
                on = (y * y - x ** 3 - a * x - b) % p == 0
                order = lambda: ref.SWFast(p, a).mul((x, y), n) is None
            elif kind == 'mont':
                a = cls.a
                values = 'a=%d' % a
                sing = (a * a - 4) % p == 0
                on = (y * y - x ** 3 - a * x * x - x) % p == 0
                order = lambda: ref.mul(lambda P, Q: ref.mont_add(p, a, P, Q), None, (x, y), n) is None
            else:
                a, d = cls.a, cls.d
                values = 'a=%d d=%d' % (a, d)
                sing = a % p == 0 or d % p == 0 or (a - d) % p == 0
                on = (a * x * x + y * y - 1 - d * x * x * y * y) % p == 0
                order = lambda: ref.mul(lambda P, Q: ref.ed_add(p, a, d, P, Q), (0, 1), (x, y), n) == (0, 1)
                cx.ok('a of %s is a square and d is not' % name, sing or ref.euler(a, p) == 1 and ref.euler(d, p) == -1, values)
            cx.ok('%s is not singular, %s' % (name, values), not sing)
            cx.ok('generator (%d, %d) of %s is on the curve, %s' % (x, y, name, values), on)
            if on and not sing:
                cx.ok('n is the order of the generator of %s' % name, order())
                g = cx.call(name, lambda: cls().generator())
                cx.eq('generator() of %s' % name, (x, y), lambda: (g.x, g.y))
    # where the values come from, for the curves that say it
    cx.group('provenance')
    pi_digits, e_digits = '%x' % scaled_pi(1120), '%x' % scaled_e(1120)
    for name in names + extra:
        cls = getattr(C, name, None)
        if cls is None or not cx.take():
            continue
        p = cls.p
        if hasattr(cls, 'seed_c'):
            c = seed_value(cls.seed, p)
            cx.eq('hash of the seed of %s' % name, c, lambda: cls.seed_c)
            cx.ok('b of %s comes from the seed' % name, (c * cls.b ** 2 - cls.a ** 3) % p == 0, cls.b)
        if hasattr(cls, 'z'):
            r = getattr(C, name.replace('t1', 'r1'))
            z = cls.z
            cx.ok('%s is the twist of %s by z' % (name, r.__name__), (cls.a - r.a * z ** 4) % p == 0 and (cls.b - r.b * z ** 6) % p == 0 and
                  (cls.xG - r.xG * z ** 2) % p == 0 and (cls.yG - r.yG * z ** 3) % p == 0 and (cls.n, cls.h, p) == (r.n, r.h, r.p), z)
        if hasattr(cls, 'seed_p'):
            i = [160, 192, 224, 256, 320, 384, 512].index(p.bit_length())
            cx.ok('first seed of %s is from pi' % name, '%040x' % cls.seed_p == pi_digits[40 * i:40 * i + 40], cls.seed_p)
            cx.ok('second seed of %s is from e' % name, '%040x' % cls.seed_ab == e_digits[40 * i:40 * i + 40], cls.seed_ab)
        if hasattr(cls, 'q'):
            cx.ok('q and n of %s agree' % name, cls.q == cls.n, cls.q)
    cx.group('lists')
    if cx.take():
        for k, base in sorted(families.items()):
            l = getattr(C, k)
            cx.ok('%s has no duplicates' % k, len(set(l)) == len(l), [c.__name__ for c in l])
            for c in l:
                cx.ok('%s in %s is of this family' % (c.__name__, k), issubclass(c, base))
                others = [o for o in families if o != k and c in getattr(C, o)]
                cx.ok('%s in %s only' % (c.__name__, k), others == [], others)
                cx.ok('%s of %s in allCurves once' % (c.__name__, k), list(C.allCurves).count(c) == 1)
            want = sorted([n for n in names if k in table[n]['lists']])
            cx.ok('members of %s' % k, sorted([c.__name__ for c in l if c.__name__ not in extra]) == want, [c.__name__ for c in l], want)
        cx.ok('members of allCurves', sorted(C.allCurves) == sorted([c for k in families for c in getattr(C, k)]))
        shapes = [(c.p, c.a % c.p, getattr(c, 'b', None), getattr(c, 'd', None), c.xG, c.yG) for c in C.allCurves]
        cx.ok('no curve twice in allCurves', len(set(shapes)) == len(shapes))
        ids = [getattr(C, n).curveId for n in names if hasattr(C, n)]
        cx.ok('curve ids are unique', len(set(ids)) == len(ids), sorted(ids))
