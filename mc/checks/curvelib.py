# Curves for the exploration: small ones whose points can all be enumerated,
# and the shipped ones.
import mclib, ref

E = mclib.load('ecc.ecc')


def _largest_prime(n):
    best, k = 1, 2
    while k * k <= n:
        while n % k == 0:
            best, n = k, n // k
        k += 1
    return n if n > 1 else best


_domains = {}
LONG = (800, 900, 980, 1000, 1010, 1023, 1024, 1025, 1100, 1536, 2000, 2048, 3000, 4096, 4200, 8192)     # sizes of scalars
EXACT = 400


def _domain(key, points, add, zero):
    """ Domain parameters as those of the shipped curves: a generator of prime order n, the cofactor h """
    if key not in _domains:
        p = key[1]
        d = dict(xG=None, yG=None, n=1, h=1, strength=0, oid=None)
        if p <= EXACT:
            pts = points()
            n = _largest_prime(len(pts))
            d.update(n=n, h=len(pts) // n)
            for P in pts:
                try:
                    G = ref.mul(add, zero, P, len(pts) // n)
                except:                 # an incomplete law
                    continue
                if G != zero:
                    d.update(xG=G[0], yG=G[1])
                    break
            else:
                G = [P for P in pts if P is not None][:1]
                if G:
                    d.update(xG=G[0][0], yG=G[0][1])
        else:
            d.update(n=p)       # about as many
        _domains[key] = d
    return _domains[key]


def _make(base, name, domain, **params):
    for k, v in domain.items():
        params.setdefault(k, v)
    params.setdefault('curveId', name)
    return type(name, (base,), params)


def sw_class(p, a, b, koblitz=False, **kw):
    name = 'sw_%d_%d_%d' % (p, a, b)
    domain = _domain(('sw', p, a, b), lambda: sw_points(p, a, b), lambda P, Q: ref.sw_add(p, a, P, Q), None)
    if koblitz:
        return _make(E.KoblitzCurveFp, name, domain, p=p, b=b, **kw)
    return _make(E.SmallWeierstrassCurveFp, name, domain, p=p, a=a, b=b, **kw)


def sw_points(p, a, b):
    roots = {}
    for y in range(p):
        roots.setdefault(y * y % p, []).append(y)
    return [None] + [(x, y) for x in range(p) for y in roots.get((x * x * x + a * x + b) % p, ())]


def sw_ok(p, a, b):
    return (4 * a * a * a + 27 * b * b) % p != 0


def ed_class(p, a, d, base=E, **kw):
    name = 'ed_%d_%d_%d' % (p, a, d)
    domain = _domain(('ed', p, a, d), lambda: ed_points(p, a, d), lambda P, Q: ref.ed_add(p, a, d, P, Q), (0, 1))
    if a == 1:
        return _make(base.EdwardsCurveFp, name, domain, p=p, d=d, **kw)
    return _make(base.TwistedEdwardsCurveFp, name, domain, p=p, a=a, d=d, **kw)


def ed_points(p, a, d):
    return [(x, y) for x in range(p) for y in range(p) if (a * x * x + y * y - 1 - d * x * x * y * y) % p == 0]


def ed_params(p):
    sq = set([x * x % p for x in range(1, p)])
    return [(a, d) for a in range(1, p) if a in sq for d in range(1, p) if d not in sq]


def mont_class(p, a, base=E, **kw):
    domain = _domain(('mont', p, a), lambda: mont_points(p, a), lambda P, Q: ref.mont_add(p, a, P, Q), None)
    return _make(base.MontgomeryCurveFp, 'mont_%d_%d' % (p, a), domain, p=p, a=a, **kw)


def mont_points(p, a):
    roots = {}
    for y in range(p):
        roots.setdefault(y * y % p, []).append(y)
    return [None] + [(x, y) for x in range(p) for y in roots.get((x * x * x + a * x * x + x) % p, ())]


def point(c, P):
    return c.point(None, None) if P is None else c.point(P[0], P[1])


def tup(c, P):
    """ What a Weierstrass or Montgomery result is """
    if isinstance(P, mclib.Raised):
        return P
    if P == c.IDENTITY:
        return None
    return (P.x, P.y)


def xy(P):
    return P if isinstance(P, mclib.Raised) else (P.x, P.y)


def table(points, add):
    """ The group law as a dictionary """
    return dict([((P, Q), add(P, Q)) for P in points for Q in points])


def shipped(kind):
    C = mclib.load('ecc.curves')
    base = {'sw': E.SmallWeierstrassCurveFp, 'ed': E.TwistedEdwardsCurveFp, 'mont': E.MontgomeryCurveFp}[kind]
    return sorted([c for c in C.allCurves if issubclass(c, base)], key=lambda c: c.__name__)


def lift_sw(p, a, b, count, start=0):
    """ The first points with x >= start """
    out, x = [], start
    while len(out) < count:
        y = ref.sqrt_mod((x * x * x + a * x + b) % p, p)
        if y is not None:
            out.append((x, y))
        x += 1
    return out
