# Field elements of GF(p)
import operator
import mclib, ref

G = mclib.load('fmath.galoisfield')


def run(cx):
    ops = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.div), ('^', operator.xor), ('**', operator.pow)]

    def model(op, a, b, p):
        """ None: refused """
        if op == '+':
            return (a + b) % p
        if op == '-':
            return (a - b) % p
        if op == '*':
            return a * b % p
        if op == '/':
            return None if b % p == 0 else a * ref.modinv(b, p) % p
        if b < 0:
            return None if a % p == 0 else pow(ref.modinv(a, p), -b, p)
        return pow(a % p, b, p)

    def value(x, f, p):
        """ The residue of a result, judged through its conversions """
        v = int(x)
        if not (0 <= v < p):
            return 'value %r out of range' % v
        if not (x == v) or x != v or not (x == f(v)) or str(x) != '%d' % v:
            return 'conversions of %r disagree' % v
        return v

    def one(desc, want, f, p, fn):
        if want is None:
            cx.refused(desc, fn)
        else:
            cx.eq(desc, want, lambda: value(fn(), f, p))

    def pair(f, p, a, b):
        for name, op in ops:
            d = '%d %s %d, p=%d' % (a, name, b, p)
            one('elements, ' + d, model(name, a % p, b % p, p), f, p, lambda: op(f(a), f(b)))
            one('integer on the right, ' + d, model(name, a % p, b, p), f, p, lambda: op(f(a), b))
            one('integer on the left, ' + d, model(name, a, b % p, p), f, p, lambda: op(a, f(b)))

    cx.group('all pairs, small fields')
    for p in ref.sieve(cx.thorough and 90 or 38):
        for a in range(p):
            if cx.take():
                f = G.GFp(p)
                for b in range(p):
                    pair(f, p, a, b)
    cx.group('negative, unreduced and long integers')
    for p in (2, 3, 5, 7, 11, 13):
        for a in range(-p - 2, 2 * p + 3):
            if cx.take():
                f = G.GFp(p)
                for b in range(-p - 2, 2 * p + 3):
                    pair(f, p, a, b)
                    pair(f, p, long(a), long(b))
    cx.group('large fields')
    C = mclib.load('ecc.curves')
    big = sorted(set([c.p for c in C.allCurves])) + [(1 << 31) - 1, (1 << 61) - 1, (1 << 127) - 1, 65537, 101, 251, 257]
    for p in big:
        vals = [0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 + 1, -1, p, p + 1, ref.num_be(ref.octets(60, 1)) % p, 1 << 64]
        for a in vals:
            if cx.take():
                f = G.GFp(p)
                for b in cx.thorough and vals or vals[::2]:
                    pair(f, p, a, b)
    cx.group('fields next to the sizes of machine words and floats')
    for k in (15, 16, 24, 26, 27, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65):
        below, above = (1 << k) - 1, (1 << k) + 1
        while not ref.is_probable_prime(below):
            below -= 2
        while not ref.is_probable_prime(above):
            above += 2
        for p in (below, above):
            vals = [p - 1, p - 2, p // 2, p // 2 + 1, p // 3, 3, 1 << k // 2, (1 << k // 2) - 1, (1 << k // 2) + 1, 1 << k - 1, (1 << k - 1) - 1, 1 << k, 1 << 53, (1 << 53) + 1, 1 << 63, (1 << 63) - 1, 1 << 31, -(1 << 31), -(1 << 63)]
            for a in vals:
                if cx.take():
                    f = G.GFp(p)
                    for b in vals:
                        pair(f, p, a, b)
    cx.group('fields of thousands of bits')
    for k in (607, 1279, 2203, 2281, 3217, 4253):
        p = (1 << k) - 1
        fib = [1, 1]                        # the slowest quotients of Euclid's algorithm
        while fib[-1] < p:
            fib.append(fib[-1] + fib[-2])
        phi = p * fib[400] // fib[401]
        vals = [2, 3, p - 1, p // 2, p // 3, phi, fib[-2] % p, ref.num_be(ref.octets(k // 8, 3)), (1 << k // 2) + 1]
        for a in vals:
            if cx.take():
                f = G.GFp(p)
                one('1 / %x, p=2^%d-1' % (a, k), ref.modinv(a, p), f, p, lambda: 1 / f(a))
                cx.eq('inverse of %x, p=2^%d-1' % (a, k), ref.modinv(a, p), f.inverse, a)
                one('%x ** -1, p=2^%d-1' % (a, k), ref.modinv(a, p), f, p, lambda: f(a) ** -1)
                one('%x * 3 - 7, p=2^%d-1' % (a, k), (a * 3 - 7) % p, f, p, lambda: f(a) * 3 - 7)
                one('7 / %x + 1, p=2^%d-1' % (a, k), (7 * ref.modinv(a, p) + 1) % p, f, p, lambda: f(7) / f(a) + f(1))
    cx.group('integers of thousands of bits, small fields')
    for k in (100, 129, 256, 521, 640, 1024, 2048, 4100):
        for p in (2, 3, 5, 7, 11, 101, 257, 65537, (1 << 31) - 1, (1 << 61) - 1, (1 << 127) - 1):
            if cx.take():
                f = G.GFp(p)
                for a in ((p << k) + 1, (p << k) - 1, -(p << k) - 2, 1 << k, (1 << k) - 1, ref.num_be(ref.octets(k // 8, 5))):
                    pair(f, p, a, 2)
                    pair(f, p, 3, a)
                    one('element of %d' % a, a % p, f, p, lambda: f(a))
                    if a % p:
                        cx.eq('inverse of %d, p=%d' % (a, p), ref.modinv(a % p, p), f.inverse, a)
    cx.group('unary operations, comparison, membership')
    for p in ref.sieve(cx.thorough and 400 or 130) + big:
        if cx.take():
            f = G.GFp(p)
            vals = p < 500 and range(-p - 1, 2 * p + 2) or [-p, -1, 0, 1, 2, p - 1, p, p + 1, 2 * p, 1 << 600]
            for a in vals:
                d = '%d, p=%d' % (a, p)
                one('element of ' + d, a % p, f, p, lambda: f(a))
                one('negation of ' + d, -a % p, f, p, lambda: -f(a))
                cx.eq('int of ' + d, a % p, lambda: int(f(a)))
                cx.eq('is_element ' + d, 0 <= a < p, lambda: bool(f.is_element(a)))
                if a % p:
                    cx.eq('inverse of ' + d, ref.modinv(a, p), f.inverse, a)
                else:
                    cx.refused('inverse of ' + d, f.inverse, a)
            for a in vals[:14]:
                for b in range(0, min(p, 14)):
                    d = '%d and %d, p=%d' % (a, b, p)
                    cx.eq('== of ' + d, (a - b) % p == 0, lambda: bool(f(a) == f(b)))
                    cx.eq('!= of ' + d, (a - b) % p != 0, lambda: bool(f(a) != f(b)))
                    cx.eq('== with the integer, ' + d, (a - b) % p == 0, lambda: bool(f(a) == b))
                    cx.eq('!= with the integer, ' + d, (a - b) % p != 0, lambda: bool(f(a) != b))
    cx.group('expressions of three operations, operands unchanged')
    for p in (5, 7, 11):
        for a in range(p):
            for b in range(p):
                if not cx.take():
                    continue
                f = G.GFp(p)
                for c in range(p):
                    x, y, z = f(a), f(b), f(c)
                    cx.eq('(a+b)*c-a, a=%d b=%d c=%d p=%d' % (a, b, c, p), ((a + b) * c - a) % p, lambda: value((x + y) * z - x, f, p))
                    cx.eq('a*b+b*c+c*a, a=%d b=%d c=%d p=%d' % (a, b, c, p), (a * b + b * c + c * a) % p, lambda: value(x * y + y * z + z * x, f, p))
                    cx.eq('-a*3+2*(b^2)-c, a=%d b=%d c=%d p=%d' % (a, b, c, p), (-a * 3 + 2 * b * b - c) % p, lambda: value(-x * 3 + 2 * (y ^ 2) - z, f, p))
                    if c:
                        cx.eq('(a-b)/c+b/c, a=%d b=%d c=%d p=%d' % (a, b, c, p), a * ref.modinv(c, p) % p, lambda: value((x - y) / z + y / z, f, p))
                    cx.eq('operands, a=%d b=%d c=%d p=%d' % (a, b, c, p), (a, b, c), lambda: (int(x), int(y), int(z)))
    cx.group('two fields at the same time')
    for p in (2, 3, 5, 7, 11, 101):
        for q in (2, 3, 5, 7, 13, 257):
            if p != q and cx.take():
                f, g = G.GFp(p), G.GFp(q)
                for a in range(8):
                    for b in range(8):
                        x, y = f(a), g(a)
                        for name, op in ops:
                            d = '%d %s %d, p=%d beside %d' % (a, name, b, p, q)
                            one(d, model(name, a % p, b, p), f, p, lambda: op(x, b))
                            one(d + ', other field', model(name, a % q, b, q), g, q, lambda: op(y, b))
                            one(d + ', first field again', model(name, a % p, b % p, p), f, p, lambda: op(x, f(b)))
                        cx.eq('is_element %d, p=%d beside %d' % (a, p, q), (a < p, a < q), lambda: (bool(f.is_element(a)), bool(g.is_element(a))))
