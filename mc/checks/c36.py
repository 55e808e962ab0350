# The modules of the library can be loaded in any order.
# State: the modules loaded so far, in their order. Each is loaded again from
# its source, so that a module may not rely on what another one has loaded, nor
# change what others use: the modules loaded before and Python's own.
import sys, itertools
import mclib, ref, standins, instrument

U = mclib.urandom
CIPHER = ['cipher.chacha_poly', 'cipher.encoding', 'cipher.common', 'cipher.aes_cmac', 'cipher.aes_siv']
ECC = ['ecc.numbertheory', 'ecc.ellipticcurve', 'ecc.ecc', 'ecc.curves']
HASH = ['hash.hmac', 'hash.pbkdf2', 'hash.michael', 'hash.tkip_mic', 'hash.tkip_key_mixing', 'hash.prf_dot11']
FMATH = ['fmath.galoisfield', 'fmath.prime', 'fmath.primes_to_5k', 'fmath.pi']
ANALYSIS = ['analysis.permutation', 'analysis.sbox_analysis', 'analysis.sbox_nonlinearity', 'analysis.walshtransform']
ALL = CIPHER + ECC + HASH + FMATH + ANALYSIS
STD = ['__builtin__', 'sys', 'os', 'math', 'struct', 'binascii', 'random', 'hashlib', 'hmac', 'types', 'fractions', 'inspect', 'string',
       'decimal', 'operator', 'itertools', 'functools', 'collections', 'copy', 'time', 'codecs', 'warnings', 'numbers', 'textwrap', 're']

K, N = ''.join([chr(7 * i + 1 & 255) for i in range(64)]), 12 * '\x05'


def outcome(fn, args):
    try:
        return fn(*args)
    except:
        return 'refused'


def small(m):
    """ A curve on 23 with 28 points """
    return type('small', (m.SmallWeierstrassCurveFp,), dict(p=23, a=1, b=1, xG=13, yG=7, n=7, h=4, strength=1, oid=None, curveId='s'))()


def affine(P):
    return (P.x, P.y)



# module -> [(name, what it should give, what it gives)]
PROBES = {
    'cipher.chacha_poly': [
        ('ChaCha', lambda: ref.chacha_xor(K[:32], 1, N, 'text' * 20), lambda m: m.ChaCha(K[:32], 1, N).encrypt('text' * 20)),
        ('a new nonce', lambda: ref.chacha_xor(K[:32], 1, ref.octets(12, 5), 'text'), lambda m: m.ChaCha(K[:32], 1).encrypt('text')),
        ('Poly1305', lambda: ref.poly1305('message', K[:32]), lambda m: m.poly1305_mac('message', K[:32])),
    ],
    'cipher.encoding': [
        ('int_to_string', lambda: '\0\x01\x02', lambda m: m.int_to_string(258, 3)),
        ('string_to_int', lambda: 66051, lambda m: m.string_to_int('\x01\x02\x03')),
    ],
    'cipher.common': [
        ('xor', lambda: ref.xors('octets', 'stream'), lambda m: m.xor('octets', 'stream')),
    ],
    'cipher.aes_cmac': [
        ('CMAC', lambda: ref.cmac(K[:16], 'a message'), lambda m: m.aes_cmac(K[:16], 'a message')),
    ],
    'cipher.aes_siv': [
        ('SIV', lambda: ref.siv_encrypt(K[:32], 'text', ['ad']), lambda m: m.siv_encrypt(K[:32], 'text', ['ad'])),
        ('SIV back', lambda: 'text', lambda m: m.siv_decrypt(K[:32], ref.siv_encrypt(K[:32], 'text', ['ad']), ['ad'])),
    ],
    'ecc.numbertheory': [
        ('inverse', lambda: 8, lambda m: m.inverse_mod(3, 23)),
        ('square root', lambda: True, lambda m: m.square_root_mod_prime(3, 23) in (7, 16)),
        ('primes', lambda: True, lambda m: m.is_prime(2 ** 61 - 1) and not m.is_prime(2 ** 61 + 1)),
        ('factors', lambda: [(2, 3), (3, 1), (1009, 1)], lambda m: [tuple(x) for x in m.factorization(24 * 1009)]),
        ('next prime', lambda: 1009, lambda m: m.next_prime(1000)),
    ],
    'ecc.ellipticcurve': [
        ('refused points', lambda: 'refused', lambda m: outcome(m.EllipticCurve().point, [1, 2])),
    ],
    'ecc.ecc': [
        ('multiples', lambda: ref.mul(lambda P, Q: ref.sw_add(23, 1, P, Q), None, (13, 7), 5), lambda m: affine(5 * small(m).generator())),
        ('roots', lambda: True, lambda m: small(m).y_from_x(13) in (7, 16)),
        ('encoded', lambda: '\x0d\x07', lambda m: small(m).generator().encode()),
        ('new key', lambda: True, lambda m: 1 <= small(m).new_private_key() <= 6),
        ('off the curve', lambda: 'refused', lambda m: outcome(small(m).point, [13, 8])),
    ],
    'ecc.curves': [
        ('a generator', lambda: (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8), lambda m: affine(m.SECP_256k1().generator())),
        ('doubled', lambda: 0xC6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5, lambda m: (2 * m.SECP_256k1().generator()).x),
    ],
    'hash.hmac': [
        ('HMAC', lambda: ref.hmac_jce('HmacSHA1', 'key', 'data'), lambda m: m.HMAC_SHA1('key')('data')),
        ('HMAC MD5', lambda: ref.hmac_jce('HmacMD5', 'key', 'data'), lambda m: m.HMAC_MD5('key')('data')),
    ],
    'hash.pbkdf2': [
        ('PBKDF2', lambda: ref.pbkdf2('pass', 'salt', 2, 25), lambda m: m.pbkdf2('pass', 'salt', 2, 25)),
    ],
    'hash.michael': [
        ('Michael', lambda: ref.michael(K[:8], 'data'), lambda m: m.Michael(K[:8])('data')),
    ],
    'hash.tkip_mic': [
        ('MIC', lambda: ref.michael(K[:8], K[:6] + K[6:12] + '\x03\0\0\0data'), lambda m: m.TKIP_MIC(K[:8]).hash(K[6:12], K[:6], 3, 'data')),
    ],
    'hash.tkip_key_mixing': [
        ('mixed key', lambda: ref.tkip_key(K[:16], K[:6], K[6:12]), lambda m: m.TKIP_Mixer(K[:16], K[:6]).newKey(K[6:12])),
    ],
    'hash.prf_dot11': [
        ('PRF', lambda: ref.dot11_prf(K[:16], 'prefix', 'data', 256), lambda m: m.PRF(K[:16], 'prefix', 'data', 256)),
    ],
    'fmath.galoisfield': [
        ('field', lambda: (2, 2, 13, 3), lambda m: [(int(a + b), int(a * b), int(a / b), int(-a)) for F in [m.GFp(17)] for a, b in [(F(14), F(5))]][0]),
    ],
    'fmath.prime': [
        ('rabin_miller', lambda: (True, False), lambda m: (bool(m.rabin_miller(1009, 2)), bool(m.rabin_miller(1011, 2)))),
    ],
    'fmath.primes_to_5k': [
        ('primes', lambda: ref.sieve(5000), lambda m: list(m.primes_to_5k)),
    ],
    'fmath.pi': [
        ('digits', lambda: '3.14159', lambda m: ('%.6f' % float(m.pi(6)))[:7]),
    ],
    'analysis.permutation': [
        ('orbits', lambda: [(0, 3), (3, 2)], lambda m: sorted([tuple(o) for o in m.permutation.orbit_start_and_length([1, 2, 0, 4, 3])])),
    ],
    'analysis.sbox_analysis': [
        ('orbits', lambda: [(0, 3), (3, 2)], lambda m: sorted([tuple(o) for o in m.orbit_start_and_length([1, 2, 0, 4, 3])])),
    ],
    'analysis.sbox_nonlinearity': [
        ('transform', lambda: [0, 0, 0, 4], lambda m: list(m.walshTransform([0, 1, 1, 0]))),
        ('sbox', lambda: (0, 0), lambda m: tuple(m.sboxNonlinearity([0, 1, 2, 3]))),
    ],
    'analysis.walshtransform': [
        ('transform', lambda: [0, 0, 0, 4], lambda m: list(m.walshTransform([0, 1, 1, 0]))),
    ],
}


def run(cx):
    for n in STD:
        __import__(n)
    ours = []
    instrument.install()
    import types
    classes = []
    for n in ('fractions', 'decimal', 'random', 'string', 'hmac', 'hashlib', 'numbers', 'textwrap', 'collections', 'codecs', 'copy', 'inspect', 'warnings', 'threading', 'os', 'struct'):
        m = __import__(n)
        for k, c in sorted(vars(m).items()):
            if isinstance(c, (type, types.ClassType)) and getattr(c, '__module__', None) == n and hasattr(c, '__dict__'):
                classes.append((n, k, c))

    def surroundings():
        """ Python's own modules, and those of the 'crypto' packages """
        r = {}
        for n in STD + ours:
            m = sys.modules.get(n)
            for k in dir(m):
                if k in ('exc_info', 'exc_type', 'exc_value', 'exc_traceback', 'last_traceback', 'last_type', 'last_value', 'modules', 'path_importer_cache', '_', '_cache', '_cache_repl', 'onceregistry', 'once_registry', 'modulesbyfile', '_filesbymodname', '__warningregistry__') or m is None:
                    continue
                try:
                    v = getattr(m, k)
                except:
                    continue
                if n == 'crypto.common' and isinstance(v, (dict, list, set)):
                    continue        # that is cipher.common: it may keep what it needs
                r[n, k] = repr(v) if isinstance(v, (int, long, float, str, list, tuple, dict)) and n != 'os' and k != '__dict__' else id(getattr(v, 'im_func', v)) if isinstance(getattr(v, 'im_func', v), type(surroundings)) else 0
        import random, os, gc, decimal, warnings, locale, socket, threading, logging, signal, time
        for n, k, c in classes:
            for a, v in list(vars(c).items()):
                v = getattr(v, '__func__', v)
                if callable(v):
                    r[n, k + '.' + a] = id(v)
        r['socket timeout', ''] = socket.getdefaulttimeout()
        r['thread stack', ''] = threading.stack_size()
        r['trace', ''] = id(getattr(threading, '_trace_hook', None)), id(getattr(threading, '_profile_hook', None)), id(sys.gettrace()), id(sys.getprofile())
        r['logging', ''] = repr((logging.root.level, logging.root.handlers, logging.root.disabled, logging.root.manager.disable))
        r['time zone', ''] = repr((time.tzname, time.timezone))
        for s in ('SIGINT', 'SIGTERM', 'SIGALRM'):
            try:
                r['signal', s] = str(signal.getsignal(getattr(signal, s)))
            except:
                pass
        for k in ('stdout', 'stderr', 'stdin', 'excepthook', 'displayhook', '__stdout__', '__stderr__'):
            r['sys.' + k, ''] = id(getattr(sys, k))
        r['working directory', ''] = os.getcwd()
        r['environment', ''] = repr(sorted(os.environ.items()))
        r['garbage collector', ''] = gc.isenabled()
        r['decimal context', ''] = repr(decimal.getcontext())
        r['warnings', ''] = repr([(f[0], getattr(f[1], 'pattern', None), f[2], getattr(f[3], 'pattern', None), f[4]) for f in warnings.filters])
        r['locale', ''] = repr(locale.setlocale(locale.LC_ALL))
        r['encoding', ''] = sys.getdefaultencoding()
        r['check interval', ''] = sys.getcheckinterval()
        r['state of random', ''] = hash(repr(random.getstate()))
        r['recursion limit', ''] = sys.getrecursionlimit()
        return r

    def forget(tops=()):
        for n in list(sys.modules):
            if n.startswith('cryptopy.') or n in tops:
                del sys.modules[n]

    for k in sorted(PROBES):
        PROBES[k] = [(name, want(), fn) for name, want, fn in PROBES[k]]
    first = surroundings()      # before anything of the library was loaded
    standins.install_aes()
    standins.install_crypto()
    U.answers = lambda n: ref.octets(n, 5)
    ours.extend([n for n in sys.modules if n.split('.')[0] in ('crypto', 'binascii_plus', 'Crypto') and n != 'crypto.keyedHash'])
    base = surroundings()
    base.update(first)

    def differs():
        now = surroundings()
        return sorted([k for k in set(base) | set(now) if base.get(k) != now.get(k)])

    def order(names, loaded, tops=()):
        """ Load in this order; probe each as soon as it is there, and all at the end """
        d = ', '.join(names)
        forget(tops)
        cx.trans(len(names))
        cx.traces += 1
        path = list(sys.path)
        mods = []
        for i, n in enumerate(names):
            cx.state(' '.join(names[:i + 1]))
            m = cx.call('import', loaded, n)
            cx.ok('%s can be imported, order %s' % (n, d), not isinstance(m, mclib.Raised), m, 'a module')
            if isinstance(m, mclib.Raised):
                return
            mods.append(m)
            probe(n, m, d)
        if len(names) > 1:
            for n, m in zip(names, mods):
                probe(n, m, d + ', afterwards')
        cx.ok('sys.path, order %s' % d, path == sys.path, sys.path, path)
        diff = cx.call('differences', differs)
        cx.ok("Python's own modules, order %s" % d, diff == [], diff, 'unchanged')

    def probe(n, m, d):
        for name, want, fn in PROBES[n]:
            cx.eq('%s of %s, order %s' % (name, n, d), want, fn, m)

    def load(n):
        return standins.keyed(n[5:]) if n.startswith('hash.') else mclib.load(n)

    cx.group('each module alone')
    for n in ALL:
        if cx.take():
            order([n], load)
    for title, names in (('cipher', CIPHER), ('ecc', ECC), ('fmath', FMATH), ('analysis', ANALYSIS)):
        cx.group('all orders of ' + title)
        for r in range(2, len(names) + 1):
            for o in itertools.permutations(names, r):
                if cx.take():
                    order(list(o), load)
    cx.group('orders of hash')
    for r in range(2, cx.thorough and 7 or 4):
        for o in itertools.permutations(HASH, r):
            if cx.take():
                order(list(o), load)
    cx.group('pairs across the packages')
    for a, b in itertools.permutations(ALL, 2):
        if a.split('.')[0] != b.split('.')[0] and cx.take():
            order([a, b], load)
    if cx.thorough:
        cx.group('triples across the packages')
        for o in itertools.permutations(ALL, 3):
            if len(set([x.split('.')[0] for x in o])) > 1 and cx.take():
                order(list(o), load)
    cx.group('a module loaded twice')
    for n in ALL:
        for other in ALL:
            if cx.take():
                def twice():
                    forget()
                    return load(n), load(other), [sys.modules.pop('cryptopy.' + n), load(n)][1]
                r = cx.call('%s, %s, %s again' % (n, other, n), twice)
                cx.ok('%s, %s, %s again' % (n, other, n), not isinstance(r, mclib.Raised), r, 'modules')
                if not isinstance(r, mclib.Raised):
                    for m in (r[0], r[2]):
                        probe(n, m, '%s, %s, %s again' % (n, other, n))
                    probe(other, r[1], '%s, %s, %s again' % (n, other, n))
                    cx.trans(3)
                    cx.traces += 1

    # as modules on sys.path, with and without the package loaded first
    for title, names in (('cipher', CIPHER), ('ecc', ECC), ('fmath', FMATH), ('analysis', ANALYSIS)):
        cx.group('modules of %s on sys.path' % title)
        tops = [n.split('.')[1] for n in names]

        def top(n):
            if n.endswith('!'):     # in the package
                return load(n[:-1])
            sys.path.insert(0, mclib.REPO + '/' + title)
            try:
                return __import__(n.split('.')[1])
            finally:
                sys.path.remove(mclib.REPO + '/' + title)
        for n in names:
            PROBES[n + '!'] = PROBES[n]
        orders = [list(o) for r in (1, 2) for o in itertools.permutations(names, r)]
        if cx.thorough:
            orders += [list(o) for r in (3, 4) for o in itertools.permutations(names, r)]
        orders += [[a + '!', b] for a in names for b in names] + [[a, b + '!'] for a in names for b in names]
        for o in orders:
            if cx.take():
                order(o, top, tops)
    forget()
