# A catalogue of operations of the whole library, for the explorations of
# histories (C43) and schedules (C42).  Arguments collide on purpose: the same
# key with another message, the same message with another key, the same
# coordinates on another curve.
import sys, types
import mclib, standins, curvelib


def reload_library():
    """ The modules of the repository as in a new process """
    for name in list(sys.modules):
        top = name.split('.')[0]
        if top == 'cryptopy' and name != 'cryptopy' or top in ('crypto', 'binascii_plus'):
            del sys.modules[name]


def canon(x, depth=0):
    """ A result, without what callers cannot rely on (list or tuple, int or long, kind of exception) """
    if x is None or isinstance(x, str):
        return repr(x)
    if isinstance(x, (bool, int, long)):
        return '%d' % x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return '[%s]' % ', '.join([canon(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return '{%s}' % ', '.join(sorted(['%s: %s' % (canon(k, depth + 1), canon(v, depth + 1)) for k, v in x.items()]))
    if hasattr(x, 'x') and hasattr(x, 'y'):
        return 'point(%s, %s)' % (canon(x.x), canon(x.y))
    if hasattr(x, 'numerator') and hasattr(x, 'denominator'):
        return '%d/%d' % (x.numerator, x.denominator)
    if hasattr(x, 'gf'):
        return 'element(%d)' % int(x)
    return '<%s>' % x.__class__.__name__


def snapshot(x):
    """ What a caller can see of an argument: values, coordinates, public parameters """
    if isinstance(x, (list, tuple)):
        return '%s[%s]' % (x.__class__.__name__, ', '.join([snapshot(y) for y in x]))
    if isinstance(x, dict):
        return '{%s}' % ', '.join(sorted(['%s: %s' % (snapshot(k), snapshot(v)) for k, v in x.items()]))
    if hasattr(x, 'xG') and hasattr(x, 'p'):
        return 'curve(%s)' % ', '.join(['%s=%r' % (k, getattr(x, k, None)) for k in ('p', 'a', 'b', 'd', 'xG', 'yG', 'n', 'h', 'coord_size', 'oid')])
    if hasattr(x, 'gf'):
        return 'element(%d of %d)' % (int(x), x.gf.p)
    if isinstance(x, types.InstanceType) and hasattr(x, 'p'):
        return 'field(%d)' % x.p
    return canon(x)


def outcome(fn, args):
    return outcome_and_result(fn, args)[0]


def outcome_and_result(fn, args):
    try:
        r = fn(*args)
        return canon(r), r
    except (KeyboardInterrupt, MemoryError):
        raise
    except:
        return 'refused', None


def parts(x):
    """ The lists and dictionaries in x """
    r = []
    if isinstance(x, (list, dict)):
        r.append(x)
    if isinstance(x, dict):
        x = x.values()
    if isinstance(x, (list, tuple)):
        for y in x:
            r += parts(y)
    return r


def scribble(x, args):
    """ Change the lists and dictionaries of a result, except those that belong to the arguments """
    own = [id(a) for a in parts(list(args))]
    for l in parts(x):
        if id(l) in own:
            continue
        if isinstance(l, dict):
            l.clear()
        else:
            l[:] = l[1:] + ['changed by the caller']


_made = {}


def made(name, fn):
    """ A value calculated with the library once, so that newly loaded modules have done nothing yet """
    if name not in _made:
        _made[name] = fn()
    return _made[name]


K1 = ''.join([chr(i) for i in range(32)])
K2 = ''.join([chr(255 - i) for i in range(32)])
N1, N2 = 12 * '\x01', 11 * '\x01' + '\x02'
M1, M2 = 'attack at dawn', 'attack at dusk'


class Coded(object):
    """ A module with a block cipher of its own """
    block_size = 16

    def __init__(self, code):
        self.code = code

    def new(self, key, *more):
        return CodedCipher(self.code, key)


class CodedCipher(object):
    block_size = 16

    def __init__(self, code, key):
        self.code, self.key = code, key

    def encrypt(self, block):
        return ''.join([chr((3 * ord(c) + ord(self.key[i % len(self.key)]) + self.code + i) & 255) for i, c in enumerate(block)])


class Soft(object):
    """ A module of which a helper may be absent (renamed, or no longer needed): calling it is refused """
    def __init__(self, module):
        self.__dict__['module'] = module

    def __getattr__(self, name):
        try:
            return getattr(self.module, name)
        except AttributeError:
            if name.startswith('__'):
                raise
        def absent(*args, **kw):
            raise NotImplementedError('absent')
        return absent

    def __setattr__(self, name, value):
        setattr(self.module, name, value)


class Library(object):
    """ The modules, loaded once; build() makes objects and arguments of its own each time """
    def __init__(self, wanted=None):
        standins.install_aes()
        L = lambda name: Soft(mclib.load(name))
        keyed = lambda name: Soft(standins.keyed(name))

        def w(*clusters):
            return wanted is None or [c for c in clusters if c in wanted]
        if w('cipher'):
            self.chacha, self.enc, self.common = L('cipher.chacha_poly'), L('cipher.encoding'), L('cipher.common')
            self.cmac, self.siv = L('cipher.aes_cmac'), L('cipher.aes_siv')
        if w('hash'):
            self.hmac, self.pbkdf2 = keyed('hmac'), keyed('pbkdf2')
            self.michael, self.mic = keyed('michael'), keyed('tkip_mic')
            self.mix, self.prf = keyed('tkip_key_mixing'), keyed('prf_dot11')
        if w('curve'):
            self.ecc, self.curves = L('ecc.ecc'), L('ecc.curves')
        if w('number'):
            self.nt = L('ecc.numbertheory')
        if w('field'):
            self.gf, self.prime, self.pi = L('fmath.galoisfield'), L('fmath.prime'), L('fmath.pi')
        if w('analysis'):
            self.perm, self.sbox, self.nl, self.walsh = L('analysis.permutation'), L('analysis.sbox_analysis'), L('analysis.sbox_nonlinearity'), L('analysis.walshtransform')
        if w('curve'):
            base = self.ecc

            def cls(parent, **kw):
                return type('small', (parent,), kw)
            # a generator of order n, as the shipped curves have
            self.sw23 = cls(base.SmallWeierstrassCurveFp, p=23, a=1, b=1, xG=13, yG=7, n=7, h=4, strength=1, oid=None, curveId='sw23')
            self.sw29 = cls(base.SmallWeierstrassCurveFp, p=29, a=4, b=1, xG=0, yG=1, n=31, h=1, strength=1, oid=None, curveId='sw29')
            self.ko23 = cls(base.KoblitzCurveFp, p=23, b=1, xG=0, yG=1, n=3, h=8, strength=1, oid=None, curveId='ko23')
            E = curvelib
            self.ed13, self.te13 = E.ed_class(13, 1, 2, base=base), E.ed_class(13, 3, 2, base=base)
            self.mo19, self.mo23 = E.mont_class(19, 3, base=base), E.mont_class(23, 3, base=base)

    def build(self, wanted):
        """ [(cluster, name, weight, function, arguments)]; weight 0: cheap, 1: dear """
        ops = []

        def op(cluster, name, fn, args, weight=0):
            ops.append((cluster, name, weight, fn, args))

        if 'cipher' in wanted:
            C, E, X = self.chacha, self.enc, self.common
            stream = lambda k, c, n, m: C.ChaCha(k, c, n).encrypt(m)
            op('cipher', 'chacha K1 N1 M1', stream, [K1, 1, N1, M1], 1)
            op('cipher', 'chacha K1 N2 M1', stream, [K1, 1, N2, M1], 1)
            op('cipher', 'chacha K2 N1 M2', stream, [K2, 1, N1, M2], 1)
            op('cipher', 'chacha two blocks', stream, [K1, 7, N1, 5 * M1], 1)
            op('cipher', 'chacha exhausted', stream, [K1, 0xffffffff, N1, 5 * M1])
            op('cipher', 'chacha wrong key', stream, [K1[1:], 1, N1, M1])
            op('cipher', 'poly1305 K1 M1', C.poly1305_mac, [M1, K1])
            op('cipher', 'poly1305 K1 M2', C.poly1305_mac, [M2, K1])
            op('cipher', 'poly1305 K2 long', C.poly1305_mac, [M1 * 4, K2])
            op('cipher', 'poly1305 key K1 N1', C.poly1305_key_gen, [K1, N1], 1)
            quarter = lambda s, *i: (C.quarter_round(s, *i), s)[1]
            op('cipher', 'quarter round 0', lambda: quarter(range(16), 0, 4, 8, 12), [])
            op('cipher', 'quarter round 1', lambda: quarter(range(16), 1, 5, 9, 13), [])
            a1, a2 = C.ChaCha20_AEAD(K1, N1[:4]), C.ChaCha_Poly_AEAD(K2, N2[:4])
            msg = made('msg', lambda: a2.encrypt(M2, N1[4:], M1))
            op('cipher', 'aead encrypt 1', a1.encrypt, [M2, N1[4:], M1], 1)
            op('cipher', 'aead encrypt 2', a2.encrypt, [M1, N1[4:], M1], 1)
            op('cipher', 'aead decrypt 1', a1.decrypt, [M2, N2[4:], M2], 1)
            op('cipher', 'aead open', a2.decrypt, [M2, msg], 1)
            op('cipher', 'aead open forged', a2.decrypt, [M2, msg[:-1] + chr(ord(msg[-1]) ^ 1)], 1)
            op('cipher', 'cmac K1 empty', self.cmac.aes_cmac, [K1[:16], ''])
            op('cipher', 'cmac K1 M1', self.cmac.aes_cmac, [K1[:16], M1])
            op('cipher', 'cmac K2 M1', self.cmac.aes_cmac, [K2[:16], M1])
            op('cipher', 'cmac K1 long', self.cmac.aes_cmac, [K1[:16], M1 * 4])
            s1, s2 = self.siv.AES_SIV(K1), self.siv.AES_SIV(K2)
            text = made('text', lambda: s1.encrypt(M1, [M2, N1]))
            op('cipher', 'siv 1', s1.encrypt, [M1, [M2, N1]], 1)
            op('cipher', 'siv 2', s2.encrypt, [M1, [M2, N1]], 1)
            op('cipher', 'siv other data', s1.encrypt, [M1, [N1, M2]], 1)
            op('cipher', 'siv long', s1.encrypt, [M1 * 4, []], 1)
            op('cipher', 'siv open', s1.decrypt, [text, [M2, N1]], 1)
            op('cipher', 'siv open forged', s1.decrypt, [text, [M2, N2]], 1)
            op('cipher', 's2v', self.siv.s2v, [K1[:16], [M1, M2 * 3]], 1)
            op('cipher', 'dbl', self.siv.dbl, [K2[:16]])
            op('cipher', 'int_to_string', E.int_to_string, [258, 4])
            op('cipher', 'int_to_string padto too small', E.int_to_string, [1 << 40, 2])
            op('cipher', 'string_to_int', E.string_to_int, [M1])
            op('cipher', 'b27', lambda s: E.b27decode(E.b27encode(s), len(s)), [M1[:5]])
            op('cipher', 'b85', E.b85encode, [M1[:5]])
            op('cipher', 'b94', E.b94encode, [M2[-5:]])
            op('cipher', 'b85 refused', E.b85decode, ['\x01\x02'])
            op('cipher', 'xor', X.xor, [M1, M2])
            op('cipher', 'xor refused', X.xor, [M1, M2 + '.'])
            op('cipher', 'common int_to_string', X.int_to_string, [258, 3])
        if 'hash' in wanted:
            H1, H2, H5 = self.hmac.HMAC_SHA1(K1), self.hmac.HMAC_SHA1(K2), self.hmac.HMAC_MD5(K1 * 3)
            op('hash', 'hmac K1 M1', H1, [M1])
            op('hash', 'hmac K1 M2', H1, [M2])
            op('hash', 'hmac K2 M1', H2, [M1])
            op('hash', 'hmac md5 long key', H5, [M1])
            op('hash', 'hmac new', lambda k, m: self.hmac.HMAC_SHA1(k)(m), [K1 * 3, M1])
            op('hash', 'hmac no key', lambda m: self.hmac.HMAC_SHA1()(m), [M1])
            op('hash', 'pbkdf2 M1', self.pbkdf2.pbkdf2, [M1, M2, 2, 24], 1)
            op('hash', 'pbkdf2 M2', self.pbkdf2.pbkdf2, [M2, M2, 2, 21], 1)
            op('hash', 'pbkdf2 too long', self.pbkdf2.pbkdf2, [M2 * 6, M2, 2, 20])
            op('hash', 'prf 128', self.prf.PRF_128, [K1, M1, M2])
            op('hash', 'prf 384', self.prf.PRF_384, [K1, M1, M2])
            op('hash', 'prf bits', self.prf.PRF, [K2, M1, M2, 44])
            m1, m2 = self.michael.Michael(K1[:8]), self.michael.Michael(K2[:8])
            op('hash', 'michael 1', m1.hash, [M1])
            op('hash', 'michael 2', m2.hash, [M1])
            op('hash', 'michael 3', m1, [M2])
            op('hash', 'michael wrong key', lambda k: self.michael.Michael(k).hash(''), [K1[:7]])
            t1, t2 = self.mic.TKIP_MIC(K1[:8]), self.mic.TKIP_MIC(K1[:8], 'D2')
            op('hash', 'mic 1', t1.hash, [K1[:6], K2[:6], 3, M1])
            op('hash', 'mic 2', t2.hash, [K1[:6], K2[:6], 3, M1])
            op('hash', 'mic priority', t1.hash, [K1[:6], K2[:6], 16, M1])
            key = lambda k, ta, pn: self.mix.TKIP_Mixer(k, ta).newKey(pn)
            op('hash', 'tkip key 1', key, [K1[:16], K1[:6], '\x02\x01\x03\x04\x05\x06'], 1)
            op('hash', 'tkip key 2', key, [K2[:16], K1[:6], '\x02\x01\x03\x04\x05\x06'], 1)
            op('hash', 'tkip key 3', key, [K1[:16], K1[:6], '\x02\x02\x03\x04\x05\x06'], 1)
            op('hash', 'tkip phases', lambda tk, ta, pn: self.mix.phase2KeyMixing(tk, self.mix.phase1KeyMixing(tk, ta, pn), pn), [range(16), range(6), range(6)], 1)
            op('hash', 'tkip phase 2', self.mix.phase2KeyMixing, [range(16), [1, 2, 3, 4, 5], range(6)], 1)
        if 'curve' in wanted:
            for name in ('sw23', 'sw29', 'ko23'):
                c = getattr(self, name)()
                pts = [q for q in curvelib.sw_points(c.p, c.a, c.b) if q and q[1]]
                p, q = c.point(*pts[3]), c.point(*pts[6])
                op('curve', name + ' add', c.add_points, [p, q])
                op('curve', name + ' double', c.double_point, [q])
                op('curve', name + ' multiple', lambda s, z: s * z, [5, p], 1)
                op('curve', name + ' sub', lambda a, b: a - b, [p, q])
                if name == 'sw23':
                    op('curve', 'sw23 negate', lambda a: -a, [p])
                    op('curve', 'sw23 sum with inverse', lambda a: a + -a, [p])
                    op('curve', 'sw23 zero', c.scalar_multiple, [p, 0])
                    op('curve', 'sw23 not on curve', c.point, [1, 2])
                    op('curve', 'sw23 negative multiple', c.scalar_multiple, [q, -3], 1)
                    op('curve', 'sw23 encode', lambda a: a.encode(), [p])
                    op('curve', 'sw23 y_from_x', c.y_from_x, [p.x])
                    op('curve', 'sw23 generator', c.generator, [])
                    op('curve', 'sw23 key', c.new_private_key, [])
            c1, c2 = self.ed13(), self.te13()
            for name, c in (('ed13', c1), ('te13', c2)):
                pts = [q for q in curvelib.ed_points(13, c.a, c.d) if q[0] and q[1]]
                p, q = c.point(*pts[0]), c.point(*pts[2])
                op('curve', name + ' add', c.add_points, [p, q])
                op('curve', name + ' double', c.double_point, [q])
                op('curve', name + ' multiple', lambda s, z: s * z, [5, p], 1)
                op('curve', name + ' negate', lambda a: -a, [p])
            for name in ('mo19', 'mo23'):
                c = getattr(self, name)()
                pts = [q for q in curvelib.mont_points(c.p, c.a) if q and q[1] and q[0]]
                p, q = c.point(*pts[1]), c.point(*pts[4])
                op('curve', name + ' add', c.add_points, [p, q])
                op('curve', name + ' double', c.double_point, [p])
                op('curve', name + ' multiple', lambda s, z: s * z, [5, p], 1)
                op('curve', name + ' ladder', c.montgomery_ladder, [3, p], 1)
                op('curve', name + ' ladder 2', c.montgomery_ladder2, [3, p], 1)
            k1, k2 = self.curves.SECP_256k1(), self.curves.SECP_256r1()
            op('curve', 'secp256k1 on_curve', k1.on_curve, [k1.generator()])
            op('curve', 'secp256k1 double', k1.double_point, [k1.generator()], 1)
            op('curve', 'secp256r1 double', k2.double_point, [k2.generator()], 1)
            e1 = self.curves.Ed25519()
            op('curve', 'ed25519 double', e1.double_point, [e1.generator()], 1)
            op('curve', 'other curve', k2.point, [k1.xG, k1.yG])
            op('curve', 'ecc int_to_string', self.ecc.int_to_string, [258, 4])
        if 'number' in wanted:
            T = self.nt
            op('number', 'inverse 3 7', T.inverse_mod, [3, 7])
            op('number', 'inverse 3 11', T.inverse_mod, [3, 11])
            op('number', 'inverse refused', T.inverse_mod, [6, 9])
            op('number', 'jacobi', T.jacobi, [5, 21])
            op('number', 'jacobi refused', T.jacobi, [5, 22])
            op('number', 'legendre', T.legendre_symbol, [5, 11])
            op('number', 'sqrt 2 17', T.square_root_mod_prime, [2, 17], 1)
            op('number', 'sqrt 2 41', T.square_root_mod_prime, [2, 41], 1)
            op('number', 'sqrt 5 11', T.square_root_mod_prime, [5, 11])
            op('number', 'sqrt none', T.square_root_mod_prime, [3, 17])
            op('number', 'modular_sqrt', T.modular_sqrt, [2, 17], 1)
            op('number', 'modular_sqrt 2', T.modular_sqrt, [5, 41], 1)
            op('number', 'modular_exp', T.modular_exp, [3, 5, 7])
            op('number', 'modular_exp negative', T.modular_exp, [3, -5, 7])
            op('number', 'poly exp', T.polynomial_exp_mod, [[0, 1], 5, [2, 1, 1], 17], 1)
            op('number', 'poly exp 2', T.polynomial_exp_mod, [[0, 1], 5, [2, 1, 1], 13], 1)
            op('number', 'poly multiply', T.polynomial_multiply_mod, [[1, 2], [3, 4], [2, 1, 1], 17])
            op('number', 'gcd', T.gcd, [12, 18, 27])
            op('number', 'gcd of list', T.gcd, [[12, 18, 28]])
            op('number', 'lcm', T.lcm, [4, 6, 10])
            op('number', 'lcm of list', T.lcm, [[4, 6, 9]])
            op('number', 'factorization', T.factorization, [360])
            op('number', 'factorization 2', T.factorization, [1231 * 7])
            op('number', 'phi', T.phi, [360])
            op('number', 'carmichael', T.carmichael, [360])
            op('number', 'carmichael of factors', T.carmichael_of_factorized, [[(2, 3), (3, 2), (5, 1)]])
            op('number', 'order', T.order_mod, [2, 11])
            op('number', 'order refused', T.order_mod, [2, 10])
            op('number', 'largest factor', T.largest_factor_relatively_prime, [360, 6])
            op('number', 'is_prime 1297', T.is_prime, [1297], 1)
            op('number', 'is_prime 1517', T.is_prime, [1517], 1)
            op('number', 'is_prime 41 * 73 * 101', T.is_prime, [41 * 73 * 101], 1)
            op('number', 'next_prime', T.next_prime, [1300], 1)
        if 'field' in wanted:
            f, g = self.gf.GFp(7), self.gf.GFp(11)
            op('field', '3 * 5 mod 7', lambda a, b: a * b, [f(3), f(5)])
            op('field', '3 * 5 mod 11', lambda a, b: a * b, [g(3), g(5)])
            op('field', '3 / 5 mod 7', lambda a, b: a / b, [f(3), f(5)])
            op('field', '3 / 5 mod 11', lambda a, b: a / b, [g(3), 5])
            op('field', '3 - 5 mod 7', lambda a, b: a - b, [f(3), f(5)])
            op('field', '3 ^ 5 mod 11', lambda a, b: a ** b, [g(3), 5])
            op('field', '3 ^ -2 mod 7', lambda a, b: a ^ b, [f(3), -2])
            op('field', 'division by zero', lambda a, b: a / b, [f(3), f(0)])
            op('field', 'equal', lambda a, b: a == b, [f(3), g(3)])
            op('field', 'inverse', f.inverse, [3])
            op('field', 'egcd', self.gf.egcd, [12, 35])
            op('field', 'rabin_miller 2047 2', self.prime.rabin_miller, [2047, 2])
            op('field', 'rabin_miller 2047 3', self.prime.rabin_miller, [2047, 3])
            op('field', 'rabin_miller refused', self.prime.rabin_miller, [13, 13])
            op('field', 'fermat', self.prime.fermat_little_test, [561, 2])
            op('field', 'pi 5', self.pi.pi, [5], 1)
            op('field', 'pi 7', self.pi.pi, [7], 1)
            op('field', 'pi too many', self.pi.pi, [10 ** 9])
        if 'analysis' in wanted:
            for name, o, l in (('permutation', self.perm.permutation.map_orbits_of_permutation, self.perm.permutation.orbit_start_and_length),
                               ('sbox_analysis', self.sbox.map_orbits_of_permutation, self.sbox.orbit_start_and_length)):
                op('analysis', name + ' orbits 1', o, [[1, 2, 0, 4, 3]])
                op('analysis', name + ' orbits 2', o, [[4, 0, 3, 2, 1]])
                op('analysis', name + ' lengths', l, [[4, 0, 3, 2, 1]])
            for name, m in (('nonlinearity', self.nl), ('walsh', self.walsh)):
                op('analysis', name + ' transform 1', m.walshTransform, [[0, 1, 1, 0]])
                op('analysis', name + ' transform 2', m.walshTransform, [[0, 0, 1, 0]])
                op('analysis', name + ' measure', m.nonLinearity, [[0, 0, 0, 1]])
                op('analysis', name + ' refused', m.walshTransform, [[0, 0, 1]])
            op('analysis', 'sbox 1', self.nl.sboxNonlinearity, [[1, 0, 3, 2]], 1)
            op('analysis', 'sbox 2', self.nl.sboxNonlinearity, [[0, 0, 0, 3]], 1)
        return ops


CLUSTERS = ('cipher', 'hash', 'curve', 'number', 'field', 'analysis')


# ---- families of neighbouring arguments ------------------------------------
def changed_octets(s, dear):
    """ s with one octet changed, one octet more or less, two octets exchanged """
    n = len(s)
    where_ = range(n) if not dear else sorted(set([0, 1, n // 4, n // 2 - 1, n // 2, 3 * n // 4, n - 2, n - 1]) & set(range(n)))
    r = [s[:i] + chr(ord(s[i]) ^ 1) + s[i + 1:] for i in where_]
    r += [s[:i] + chr(ord(s[i]) ^ 0x80) + s[i + 1:] for i in where_[:1] + where_[-1:]]
    r += [s[1:], s[:-1], s + '\x00', '\x00' + s, s[1:2] + s[:1] + s[2:], s[::-1], s + s]
    for i in (0, n // 2, n - 2):        # with the same hash()
        if 0 <= i < n - 1:
            a, b = ord(s[i]), ord(s[i + 1])
            if a < 255 and b > 30:
                r.append(s[:i] + chr(a + 1) + chr(b - 31) + s[i + 2:])
            elif a > 0 and b < 225:
                r.append(s[:i] + chr(a - 1) + chr(b + 31) + s[i + 2:])
    return r


def joined(a, b):
    """ Pairs of strings that give the same one when they are joined, with or without something in between """
    return [(a + b[:1], b[1:]), (a[:-1], a[-1:] + b)] + [x for c in '|,:;\0 -/+\n._=#' for x in ((a + c, b), (a, c + b))]


def changed_number(k, dear):
    # the last three: with the same hash(), with the same lowest word
    return [k + 1, k - 1, k + 2, k + 256, k + 65536, k + (1 << 32), -k, 2 * k, k + (1 << 32) - 31, k + 2 * ((1 << 32) - 31), k + (1 << 64)] if not dear else [k + 1, k - 1, k + 2, -k]


def changed_list(l, dear):
    r = []
    for i in range(len(l)):
        for v in changed(l[i], dear):
            r.append(l[:i] + [v] + l[i + 1:])
        if i and isinstance(l[i - 1], str) and isinstance(l[i], str):
            r += [l[:i - 1] + list(x) + l[i + 1:] for x in joined(l[i - 1], l[i])]
    return r + [l[1:], l[:-1], l[::-1], l + l[-1:], l[1:2] + l[:1] + l[2:]]


def changed(x, dear):
    if isinstance(x, bool):
        return [not x]
    if isinstance(x, (int, long)):
        return changed_number(x, dear)
    if isinstance(x, str):
        return changed_octets(x, dear)
    if isinstance(x, list):
        return changed_list(x, dear)
    if isinstance(x, tuple):
        return [tuple(y) for y in changed_list(list(x), True)]
    return []


def neighbours(args, dear):
    """ Argument lists that differ from the given one in one place """
    out = []
    for i, x in enumerate(args):
        for v in changed(x, dear):
            out.append(args[:i] + [v] + args[i + 1:])
    for i in range(len(args)):
        for j in range(i):
            if type(args[i]) is type(args[j]):
                swapped = list(args)
                swapped[i], swapped[j] = args[j], args[i]
                out.append(swapped)
    for i in range(len(args) - 1):
        a, b = args[i], args[i + 1]
        if isinstance(a, str) and isinstance(b, str):
            out += [args[:i] + list(x) + args[i + 2:] for x in joined(a, b)]
    r = []
    for a in out:
        if a != args and a not in r:
            r.append(a)
    return r


def families(lib, wanted):
    """ [(cluster, name, dear, function, arguments)], of which every argument may change """
    f = []

    def fam(cluster, name, fn, args, dear=False):
        f.append((cluster, name, dear, fn, args))

    if 'cipher' in wanted:
        C, E, X = lib.chacha, lib.enc, lib.common
        fam('cipher', 'ChaCha encrypt', lambda k, c, n, m: C.ChaCha(k, c, n).encrypt(m), [K1, 1, N1, M1], True)
        fam('cipher', 'ChaCha block', lambda k, c, n: C.ChaCha(k, c, n).chacha20_block(), [K1, 1, N1], True)
        fam('cipher', 'poly1305_mac', C.poly1305_mac, [M1 + M2, K1])
        fam('cipher', 'poly1305_key_gen', C.poly1305_key_gen, [K1, N1], True)
        fam('cipher', 'AEAD encrypt', lambda k, c, m, iv, a: C.ChaCha20_AEAD(k, c).encrypt(m, iv, a), [K1, N1[:4], M1, N1[4:], M2], True)
        fam('cipher', 'AEAD decrypt', lambda k, c, a, m: C.ChaCha20_AEAD(k, c).decrypt(a, m), [K1, N1[:4], M2, made('aead', lambda: C.ChaCha20_AEAD(K1, N1[:4]).encrypt(M1, N1[4:], M2))], True)
        one = C.ChaCha20_AEAD(K1, N1[:4])
        fam('cipher', 'encrypt of one AEAD object', one.encrypt, [M1, N1[4:], M2], True)
        fam('cipher', 'decrypt of one AEAD object', one.decrypt, [M2, made('one', lambda: one.encrypt(M1, N1[4:], M2))], True)
        fam('cipher', 'aes_cmac', lib.cmac.aes_cmac, [K1[:16], M1 + M2])
        kinds = [lib.cmac.AES, Coded(0x5a), Coded(0xa5)]
        fam('cipher', 'aes_cmac with ciphers', lambda i, k, m: lib.cmac.aes_cmac(k, m, kinds[i % 3]), [0, K1[:16], M1 + M2], True)
        fam('cipher', 'subkeys with ciphers', lambda i, k: lib.cmac.subkey(k, kinds[i % 3]), [0, K1[:16]], True)
        fam('cipher', 's2v of long key', lib.siv.s2v, [K1, [M1]], True)
        fam('cipher', 'AES_SIV encrypt with long key', lambda k, m, a: lib.siv.AES_SIV(k).encrypt(m, a), [K1 + K2, M1, [N1]], True)
        fam('cipher', 'AES_SIV encrypt', lambda k, m, a: lib.siv.AES_SIV(k).encrypt(m, a), [K1, M1 + M2, [N1[:4], N2[-4:]]], True)
        fam('cipher', 'AES_SIV decrypt', lambda k, m, a: lib.siv.AES_SIV(k).decrypt(m, a), [K1, made('siv', lambda: lib.siv.AES_SIV(K1).encrypt(M1, [N1[:4], N2[-4:]])), [N1[:4], N2[-4:]]], True)
        siv = lib.siv.AES_SIV(K1)
        fam('cipher', 'encrypt of one AES_SIV object', siv.encrypt, [M1 + M2, [N1[:4], N2[-4:]]], True)
        fam('cipher', 'decrypt of one AES_SIV object', siv.decrypt, [made('siv object', lambda: siv.encrypt(M1, [N1[:4], N2[-4:]])), [N1[:4], N2[-4:]]], True)
        fam('cipher', 's2v', lib.siv.s2v, [K1[:16], [M1, M2 * 2]], True)
        fam('cipher', 'dbl', lib.siv.dbl, [K2[:16]])
        for i, m in enumerate((E, X)):
            fam('cipher', 'int_to_string %d' % i, m.int_to_string, [258, 4])
            fam('cipher', 'string_to_int %d' % i, m.string_to_int, [M1[:5]])
        for b in ('b27', 'b85', 'b94'):
            enc, dec = getattr(E, b + 'encode'), getattr(E, b + 'decode')
            fam('cipher', b + 'encode', enc, ['abcd'])
            fam('cipher', b + 'decode', dec, [made(b, lambda: enc('abcd'))])
        fam('cipher', 'xor', X.xor, [M1, M2])
    if 'hash' in wanted:
        H = lib.hmac
        fam('hash', 'HMAC_SHA1', lambda k, m: H.HMAC_SHA1(k)(m), [K1[:20], M1])
        fam('hash', 'HMAC_MD5 long key', lambda k, m: H.HMAC_MD5(k)(m), [K1 * 3, M1], True)
        fam('hash', 'one HMAC_SHA1 object', H.HMAC_SHA1(K1), [M1])
        fam('hash', 'pbkdf2', lib.pbkdf2.pbkdf2, [M1, M2, 2, 24], True)
        fam('hash', 'PRF', lib.prf.PRF, [K1, M1, M2, 264], True)
        fam('hash', 'Michael', lambda k, m: lib.michael.Michael(k).hash(m), [K1[:8], M1])
        fam('hash', 'TKIP_MIC', lambda k, d, sa, da, q, m: lib.mic.TKIP_MIC(k, d).hash(sa, da, q, m), [K1[:8], 'D1', K1[:6], K2[:6], 3, M1], True)
        fam('hash', 'one TKIP_MIC object', lib.mic.TKIP_MIC(K1[:8]).hash, [K1[:6], K2[:6], 3, M1])
        fam('hash', 'TKIP_Mixer', lambda k, ta, pn: lib.mix.TKIP_Mixer(k, ta).newKey(pn), [K1[:16], K1[:6], '\x02\x01\x03\x04\x05\x06'])
        fam('hash', 'one TKIP_Mixer object', lib.mix.TKIP_Mixer(K1[:16], K2[:6]).newKey, ['\x02\x01\x03\x04\x05\x06'])
        fam('hash', 'phase1KeyMixing', lib.mix.phase1KeyMixing, [range(16), range(6), range(6)], True)
        fam('hash', 'phase2KeyMixing', lib.mix.phase2KeyMixing, [range(16), [1, 2, 3, 4, 5], range(6)], True)
    if 'curve' in wanted:
        E = lib.ecc

        def on(cls, keys, use):
            """ A calculation on the curve with the given parameters """
            def fn(params, *args):
                kw = dict(zip(keys, params))
                for k in ('xG', 'yG', 'n', 'h', 'strength', 'oid', 'curveId'):
                    kw.setdefault(k, 1)
                return use(type('small', (cls,), kw)(), *args)
            return fn

        def multiple(c, x, y, k):
            return c.point(x, y) * k

        def total(c, x, y, x2, y2):
            return c.point(x, y) + c.point(x2, y2)

        def ladder(c, x, y, k):
            return c.montgomery_ladder(k, c.point(x, y)), c.montgomery_ladder2(k, c.point(x, y))
        # (0, 1) is on every one of these
        sw, ed, mo = E.SmallWeierstrassCurveFp, E.TwistedEdwardsCurveFp, E.MontgomeryCurveFp
        for b in (0, 1):
            # x = 1: y^2 = 1 + a + b
            fam('curve', 'Weierstrass multiple %d' % b, on(sw, ['p', 'a', 'b'], multiple), [[31, 3 - b, b], 1, 2, 5], True)
            fam('curve', 'Weierstrass sum %d' % b, on(sw, ['p', 'a', 'b'], total), [[31, 3 - b, b], 1, 2, 1, 2], True)
            fam('curve', 'Weierstrass inverse point %d' % b, on(sw, ['p', 'a', 'b'], total), [[31, 3 - b, b], 1, 2, 1, 29], True)
        fam('curve', 'Koblitz multiple', on(E.KoblitzCurveFp, ['p', 'b'], multiple), [[31, 3], 1, 2, 5], True)
        for p in (13, 29):
            for a, d in ((1, 2), (4, 2), (4, 8)):
                pts = [q for q in curvelib.ed_points(p, a, d) if q[0] and q[1]]
                fam('curve', 'Edwards multiple %d %d %d' % (p, a, d), on(ed, ['p', 'a', 'd'], multiple), [[p, a, d], pts[0][0], pts[0][1], 5], True)
                fam('curve', 'Edwards sum %d %d %d' % (p, a, d), on(ed, ['p', 'a', 'd'], total), [[p, a, d]] + list(pts[0]) + list(pts[1]), True)
        for a in (3, 5):
            for p in (19, 31):
                pts = [q for q in curvelib.mont_points(p, a) if q and q[1] and q[0]]
                fam('curve', 'Montgomery multiple %d %d' % (p, a), on(mo, ['p', 'a'], multiple), [[p, a], pts[0][0], pts[0][1], 5], True)
                fam('curve', 'Montgomery ladders %d %d' % (p, a), on(mo, ['p', 'a'], ladder), [[p, a], pts[0][0], pts[0][1], 5], True)
                fam('curve', 'Montgomery sum %d %d' % (p, a), on(mo, ['p', 'a'], total), [[p, a]] + list(pts[0]) + list(pts[1]), True)
        # The same coordinates on two curves: multiples of points shared by both
        for name, cls, first, second, pts in (
                ('Weierstrass', sw, dict(p=31, a=3, b=0), dict(p=31, a=2, b=1), [(1, 2), (1, 29)]),
                ('Edwards', ed, dict(p=29, a=1, d=2), dict(p=29, a=1, d=3), [(0, 1), (0, 28), (1, 0), (28, 0)]),
                ('Montgomery', mo, dict(p=31, a=2), dict(p=31, a=2 + 31), [(1, 2), (1, 29), (0, 0)])):
            objects = []
            for kw in (first, second):
                for k in ('xG', 'yG', 'n', 'h', 'strength', 'oid', 'curveId'):
                    kw.setdefault(k, 1)
                objects.append(type('small', (cls,), kw)())

            def shared(which, i, k, objects=objects, pts=pts):
                c = objects[which % 2]
                return c.point(*pts[i % len(pts)]) * k
            fam('curve', name + ' objects', shared, [0, 0, 2], True)

            def shared_sum(which, i, j, objects=objects, pts=pts):
                c = objects[which % 2]
                return c.point(*pts[i % len(pts)]) + c.point(*pts[j % len(pts)])
            fam('curve', name + ' objects sum', shared_sum, [0, 0, 0], True)
        # All points of one curve, next to their negatives
        for name, cls, kw, pts in (
                ('Weierstrass', sw, dict(p=23, a=1, b=1), curvelib.sw_points(23, 1, 1)), ('Weierstrass a=0', sw, dict(p=31, a=0, b=3), curvelib.sw_points(31, 0, 3)),
                ('Edwards', ed, dict(p=29, a=1, d=2), curvelib.ed_points(29, 1, 2)), ('twisted Edwards', ed, dict(p=13, a=4, d=2), curvelib.ed_points(13, 4, 2)),
                ('Montgomery', mo, dict(p=31, a=3), curvelib.mont_points(31, 3))):
            for k in ('xG', 'yG', 'n', 'h', 'strength', 'oid', 'curveId'):
                kw.setdefault(k, 1)
            curve = type('small', (cls,), kw)()
            pts = sorted([q for q in pts if q])

            def mirrored(i, k, curve=curve, pts=pts):
                return curve.point(*pts[i % len(pts)]) * k

            def mirrored_sum(i, j, curve=curve, pts=pts):
                return curve.point(*pts[i % len(pts)]) + curve.point(*pts[j % len(pts)])
            for i in range(0, len(pts), 3):
                fam('curve', 'point %d of a %s curve' % (i, name), mirrored, [i, 3], True)
                fam('curve', 'sum with point %d of a %s curve' % (i, name), mirrored_sum, [i, i + 1], True)
        for b in (0, 1):
            fam('curve', 'Weierstrass y from x %d' % b, on(sw, ['p', 'a', 'b'], lambda c, x: c.y_from_x(x)), [[31, 3 - b, b], 1], True)
        names = [c.__name__ for c in lib.curves.allCurves]

        def shipped(i):
            c = lib.curves.allCurves[i % len(names)]()
            return c.generator().x, c.on_curve(c.generator()), c.coord_size, c.IDENTITY.x, c.generator() == c.point(c.xG, c.yG), c.generator().curve == c
        fam('curve', 'generators', shipped, [5])
        fam('curve', 'ecc int_to_string', E.int_to_string, [258, 4])
        fam('curve', 'ecc string_to_int', E.string_to_int, [M1[:5]])
    if 'number' in wanted:
        T = lib.nt
        for fn, args in ((T.inverse_mod, [3, 7]), (T.inverse_mod, [-3, 10]), (T.jacobi, [5, 21]), (T.legendre_symbol, [5, 11]), (T.square_root_mod_prime, [2, 17]),
                         (T.square_root_mod_prime, [4, 31]), (T.modular_sqrt, [2, 17]), (T.modular_exp, [3, 5, 7]), (T.modular_exp, [3, -5, 7]),
                         (T.polynomial_exp_mod, [[0, 1], 5, [2, 1, 1], 17]), (T.polynomial_multiply_mod, [[1, 2], [3, 4], [2, 1, 1], 17]),
                         (T.gcd, [12, 18, 27]), (T.gcd, [[12, 18, 27]]), (T.lcm, [4, 6, 10]), (T.lcm, [[4, 6, 10]]), (T.factorization, [360]), (T.factorization, [1231 * 7]),
                         (T.phi, [360]), (T.carmichael, [360]), (T.carmichael_of_factorized, [[(2, 3), (3, 2), (5, 1)]]),
                         (T.order_mod, [2, 11]), (T.order_mod, [3, 10]), (T.largest_factor_relatively_prime, [360, 6]), (T.is_prime, [1297]), (T.is_prime, [1373653]), (T.next_prime, [1300]),
                         (T.is_prime, [(1 << 61) - 1]), (T.is_prime, [(1 << 62) - 143]), (T.jacobi, [(1 << 60) + 7, (1 << 61) - 1]), (T.inverse_mod, [(1 << 60) + 7, (1 << 61) - 1]), (T.gcd, [3 << 60, 9 << 60]),
                         (T.square_root_mod_prime, [4, (1 << 61) - 1]), (T.modular_sqrt, [2, (1 << 61) - 1])):
            dear = fn in (T.order_mod, T.factorization, T.phi, T.carmichael, T.polynomial_exp_mod, T.square_root_mod_prime, T.modular_sqrt) or fn is T.carmichael_of_factorized
            fam('number', '%s %r' % (fn.__name__, args), fn, args, dear)
    if 'field' in wanted:
        G = lib.gf

        def calc(op):
            return lambda p, a, b: op(G.GFp(p)(a), b)
        for name, o in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('/', lambda a, b: a / b), ('**', lambda a, b: a ** b), ('reversed /', lambda a, b: b / a)):
            fam('field', 'element %s number' % name, calc(o), [11, 3, 5])
            fam('field', 'element %s element' % name, lambda p, a, b, o=o: o(G.GFp(p)(a), G.GFp(p)(b)), [11, 3, 5])
        fam('field', 'GFp inverse', lambda p, a: G.GFp(p).inverse(a), [11, 3])
        fam('field', 'GFp power', lambda p, a, b: G.GFp(p).power(a, b), [11, 3, 5])
        fields = [G.GFp(11), G.GFp(13)]
        fam('field', 'two fields', lambda i, a, b: fields[i % 2](a) / fields[i % 2](b), [0, 3, 5])
        fam('field', 'egcd', G.egcd, [12, 35])
        fam('field', 'large inverse', lambda p, a: G.GFp(p).inverse(a), [(1 << 61) - 1, (1 << 60) + 7])
        fam('field', 'large rabin_miller', lib.prime.rabin_miller, [(1 << 61) - 1, 3])
        fam('field', 'inverse_mod', G.inverse_mod, [3, 7])
        fam('field', 'rabin_miller', lib.prime.rabin_miller, [2047, 2])
        fam('field', 'fermat', lib.prime.fermat_little_test, [561, 2])
        fam('field', 'pi', lib.pi.pi, [5], True)
    if 'analysis' in wanted:
        for name, o, l in (('permutation', lib.perm.permutation.map_orbits_of_permutation, lib.perm.permutation.orbit_start_and_length),
                           ('sbox_analysis', lib.sbox.map_orbits_of_permutation, lib.sbox.orbit_start_and_length)):
            for k, fn in enumerate((o, l)):
                for perm in ([1, 2, 0, 4, 3], [0, 1, 2, 3]):
                    def exchanged(i, j, fn=fn, perm=perm):
                        q = list(perm)
                        i, j = i % len(q), j % len(q)
                        q[i], q[j] = q[j], q[i]
                        return fn(q)
                    fam('analysis', '%s %d %r' % (name, k, perm), exchanged, [0, 0])
        for name, m in (('nonlinearity', lib.nl), ('walsh', lib.walsh)):
            # bits of a number as the sequence
            for fn in (m.walshTransform, m.nonLinearity):
                for n in (4, 8):
                    fam('analysis', '%s %s %d' % (name, fn.__name__, n), lambda v, fn=fn, n=n: fn([v >> i & 1 for i in range(n)]), [6])
                fam('analysis', '%s %s' % (name, fn.__name__), fn, [[0, 1, 1, 0]], True)
        fam('analysis', 'sboxNonlinearity', lib.nl.sboxNonlinearity, [[1, 0, 3, 2]], True)
    return f
