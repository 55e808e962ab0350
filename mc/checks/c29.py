# Key agreement of two and three parties over every family of curves.
# State: the private keys of the parties and the messages they have exchanged.
# Each party has its own curve object and knows of the others only the octets
# they sent.
import mclib, ref, curvelib

U = mclib.urandom


def run(cx):
    def decode(c, s):
        """ A receiver: two halves are the coordinates """
        assert len(s) == 2 * c.coord_size
        return c.point(ref.num_be(s[:c.coord_size]), ref.num_be(s[c.coord_size:]))

    def public(cls, k):
        c = cls()
        return (k * c.generator()).encode()

    def secret(cls, k, message):
        c = cls()
        return (k * decode(c, message)).encode()

    def relay(cls, k, message):
        c = cls()
        return (decode(c, message) * k).encode()

    def model(cls):
        p = cls.p
        if issubclass(cls, curvelib.E.SmallWeierstrassCurveFp):
            return (lambda P, Q: ref.sw_add(p, cls.a, P, Q)), None
        if issubclass(cls, curvelib.E.MontgomeryCurveFp):
            return (lambda P, Q: ref.mont_add(p, cls.a, P, Q)), None
        return (lambda P, Q: ref.ed_add(p, cls.a, cls.d, P, Q)), (0, 1)

    def octets(cls, P):
        size = (cls.p.bit_length() + 7) // 8
        return ref.be(P[0], size) + ref.be(P[1], size)

    def toy(cls, name, three, keys=None):
        """ All pairs of private keys """
        add, zero = model(cls)
        n, G = cls.n, (cls.xG, cls.yG)
        if cls.xG is None or n < 3:
            return
        mult, Q = [zero], G
        while Q != zero:
            mult.append(Q)
            Q = add(Q, G)
        if len(mult) != n:      # a group whose generator has another order
            return
        ks = keys or range(1, n)
        sent = {}
        for a in ks:
            sent[a] = cx.eq('public key of %d, %s' % (a, name), octets(cls, mult[a]), public, cls, a)
        for a in ks:
            for b in ks:
                cx.state((name, a, b))
                cx.trans(2)
                cx.traces += 1
                w = octets(cls, mult[a * b % n])
                d = 'keys %d and %d, %s' % (a, b, name)
                cx.eq('secret of the one, ' + d, w, secret, cls, a, sent[b])
                cx.eq('secret of the other, ' + d, w, secret, cls, b, sent[a])
                if three:
                    for c in ks[:: max(1, len(ks) // 4)]:
                        cx.trans(2)
                        w3 = octets(cls, mult[a * b * c % n])
                        e = 'keys %d, %d and %d, %s' % (a, b, c, name)
                        cx.eq('secret of three, ' + e, w3, lambda: secret(cls, c, relay(cls, b, sent[a])))
        # messages that are changed on the way are refused, or are another point of the curve
        if three:
            for a in ks[:3]:
                for bit in range(8 * len(sent[a])):
                    s = [ord(x) for x in sent[a]]
                    s[bit // 8] ^= 128 >> bit % 8
                    s = ''.join([chr(x) for x in s])
                    half = len(s) // 2
                    x, y = ref.num_be(s[:half]), ref.num_be(s[half:])
                    d = 'bit %d of the public key of %d, %s' % (bit, a, name)
                    if on(cls, x, y):
                        cx.true('accepted, ' + d, lambda: decode(cls(), s).x == x)
                    else:
                        cx.refused('changed ' + d, lambda: decode(cls(), s))

    def on(cls, x, y):
        p = cls.p
        if issubclass(cls, curvelib.E.SmallWeierstrassCurveFp):
            return (x * x * x + cls.a * x + cls.b - y * y) % p == 0
        if issubclass(cls, curvelib.E.MontgomeryCurveFp):
            return (x * x * x + cls.a * x * x + x - y * y) % p == 0
        return (cls.a * x * x + y * y - 1 - cls.d * x * x * y * y) % p == 0

    cx.group('all pairs of keys, small curves')
    tops = cx.thorough and 45 or 24
    for p in ref.sieve(tops)[2:]:
        for a in range(p):
            for b in range(p):
                if curvelib.sw_ok(p, a, b) and (p < 12 or (a * 7 + b) % (cx.thorough and 3 or 12) == 1) and cx.take():
                    toy(curvelib.sw_class(p, a, b, a == 0 and b % 2), 'p=%d a=%d b=%d' % (p, a, b), p < 14)
        for i, (a, d) in enumerate(curvelib.ed_params(p)):
            if (p < 12 or i % (cx.thorough and 2 or 7) == 1) and cx.take():
                toy(curvelib.ed_class(p, a, d), 'Edwards p=%d a=%d d=%d' % (p, a, d), p < 14)
        for a in range(p):
            if (a * a - 4) % p and cx.take():
                toy(curvelib.mont_class(p, a), 'Montgomery p=%d a=%d' % (p, a), p < 14)
    cx.group('coordinates of two octets')
    for p in (251, 257, 263):
        for cls, name in ((curvelib.sw_class(p, p - 3, 1), 'p=%d a=-3' % p), (curvelib.sw_class(p, 0, 5), 'p=%d a=0' % p), (curvelib.mont_class(p, 6), 'Montgomery p=%d' % p)):
            if cx.take():
                toy(cls, name, False, [k for k in range(1, cls.n, max(1, cls.n // 12))] + [cls.n - 1])
    for cls in curvelib.shipped('sw') + curvelib.shipped('ed') + curvelib.shipped('mont'):
        cx.group('shipped curves')
        n, G = cls.n, (cls.xG % cls.p, cls.yG % cls.p)
        if issubclass(cls, curvelib.E.SmallWeierstrassCurveFp):
            f = ref.SWFast(cls.p, cls.a)
            times = lambda k, P: f.mul(P, k)
        else:
            add, zero = model(cls)
            times = lambda k, P: ref.mul(add, zero, P, k)
        size = (n.bit_length() + 7) // 8
        ks = [ref.num_be(ref.octets(size, 11)) % (n - 1) + 1, ref.num_be(ref.octets(size, 12)) % (n - 1) + 1, 1, n - 1, 2, (n + 1) // 2, n // 3, 1 << (n.bit_length() - 2)]
        pairs = cx.thorough and [(i, j) for i in range(8) for j in range(i + 1)] or [(0, 1), (2, 3), (4, 5)]
        for i, j in pairs:
            if not cx.take():
                continue
            a, b = ks[i], ks[j]
            d = 'keys %#x and %#x, %s' % (a, b, cls.__name__)
            cx.trans(4)
            cx.traces += 1
            cx.state((cls.__name__, a, b))
            A = cx.eq('public key of the one, ' + d, octets(cls, times(a, G)), public, cls, a)
            B = cx.eq('public key of the other, ' + d, octets(cls, times(b, G)), public, cls, b)
            w = octets(cls, times(a * b % n, G))
            cx.eq('secret of the one, ' + d, w, secret, cls, a, B)
            cx.eq('secret of the other, ' + d, w, secret, cls, b, A)
        # keys as the library makes them, and compressed public keys
        if issubclass(cls, curvelib.E.SmallWeierstrassCurveFp):
            for i in range(cx.thorough and 6 or 1):
                if not cx.take():
                    continue

                def new(salt):
                    U.answers = lambda m: ref.octets(m, salt)
                    try:
                        return cls().new_private_key()
                    finally:
                        U.answers = None
                a, b = cx.call('new key', new, 40 + i), cx.call('new key', new, 60 + i)
                if isinstance(a, mclib.Raised) or isinstance(b, mclib.Raised):
                    cx.ok('new private keys, %s' % cls.__name__, False, (a, b), 'keys')
                    continue
                d = 'new keys %d, %s' % (i, cls.__name__)
                A = cx.eq('public key of the one, ' + d, octets(cls, times(a, G)), public, cls, a)
                w = times(a * b % n, G)
                cx.eq('secret of the other, ' + d, octets(cls, w), secret, cls, b, A)

                def compressed():
                    """ x alone was sent: x of the secret is the same for both roots """
                    c = cls()
                    x = ref.num_be(A[:c.coord_size])
                    return (b * c.point(x, c.y_from_x(x))).x
                cx.eq('secret from x alone, ' + d, w[0], compressed)
                cx.trans(3)
                cx.traces += 1
