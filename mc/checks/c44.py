# Operations that are broken off by an exception.
# An exception is raised at a point (instrument.py) inside an operation of the
# repository, or by the random source, block cipher or pseudorandom function
# that it uses; then the same and other operations follow.
from thread import get_ident
import mclib, ops, instrument, ref, standins

U = mclib.urandom


class Interrupt(BaseException):
    """ As KeyboardInterrupt """


class Failure(Exception):
    """ As MemoryError, RuntimeError or an error of the operating system """


class Breaker(object):
    """ Counts the points the thread passes and raises at one of them """
    def __init__(self, at, kind, thread):
        self.at, self.kind, self.n, self.thread = at, kind, 0, thread
        self.seen = [] if at < 0 else None
        self.raised = False

    def point(self, number):
        if self.thread != get_ident():
            return          # a finalizer
        n = self.n
        self.n = n + 1
        if n == self.at:
            self.raised = True
            raise self.kind('broken off')
        if self.seen is not None:
            self.seen.append(number)


running = None


def statement(number):
    if running is not None:
        running.point(number)


def value(v, number):
    if running is not None:
        running.point(number)
    return v


def outcome(fn, args):
    try:
        return ops.canon(fn(*args))
    except:
        return 'refused'


def default(n):
    return ''.join([chr((37 * i + n) & 255) for i in range(n)])


def run(cx):
    U.answers = default
    instrument.install(statement, value)
    me = get_ident()
    FIRST = cx.thorough and 50 or 2

    def broken(fn, args, at, kind):
        """ -> outcome, and whether the exception was raised """
        global running
        running = b = Breaker(at, kind, me)
        try:
            got = outcome(fn, args)
        finally:
            running = None
        return got, b

    def chosen(seen, first, limit):
        count, last = {}, {}
        keep = set()
        for i, number in enumerate(seen):
            count[number] = count.get(number, 0) + 1
            last[number] = i
            if count[number] <= first:
                keep.add(i)
        return range(len(seen)) if len(seen) <= limit else sorted(keep | set(last.values()))

    def attempt(name, fn, args, at, kind, want, then):
        """ Break off, then run what follows: [(name, fn, args, want)] """
        before = ops.snapshot(args)
        d = '%s broken off at point %d by %s' % (name, at, kind.__name__)
        r = cx.call(d, broken, fn, args, at, kind)
        if isinstance(r, mclib.Raised):
            cx.ok(d, False, r, 'an outcome')
            return
        cx.trans()
        cx.traces += 1
        cx.ok(d, r[0] in ('refused', want), r[0], 'an exception')
        if 'polynomial_reduce_mod' not in name:
            cx.ok('arguments of %s' % d, ops.snapshot(args) == before, ops.snapshot(args), before)
        if hasattr(fn, 'reset'):        # an HMAC object, which has taken in a part
            cx.call(d, fn.reset)
        for n2, fn2, args2, want2 in then:
            cx.trans()
            got = cx.call(n2, outcome, fn2, args2)
            cx.ok('%s after %s' % (n2, d), got == want2, got, want2)
        cx.state(d)

    cx.group('operations broken off')
    ops.reload_library()
    for c in ops.CLUSTERS:
        lib = ops.Library((c,))
        left, right = lib.build((c,)), lib.build((c,))
        want = [cx.call(o[1], outcome, o[3], o[4]) for o in left]
        word = [o[1].split()[0] for o in left]
        everything = [(o[1], o[3], o[4], w) for o, w in zip(right, want) if not o[2]]
        for x, a in enumerate(left):
            if not cx.take():
                continue
            seen = broken(a[3], a[4], -1, Interrupt)[1].seen
            near = [i for i in range(len(left)) if word[i] == word[x] and i != x and not left[i][2]][:3]
            then = [(left[x][1] + ' again', left[x][3], left[x][4], want[x]), (right[x][1] + ' of other objects', right[x][3], right[x][4], want[x])]
            then += [(right[i][1], right[i][3], right[i][4], want[i]) for i in near]
            for k, at in enumerate(chosen(seen, FIRST, cx.thorough and 20000 or 120)):
                for kind in (Interrupt, Failure):
                    attempt(a[1], a[3], a[4], at, kind, want[x], then + (everything if k % 40 == 7 else []))
            got = [cx.call(n, outcome, fn, args) for n, fn, args, w in everything]
            for (n, fn, args, w), g in zip(everything, got):
                cx.ok('%s after all breaks of %s' % (n, a[1]), g == w, g, w)

    cx.group('functions broken off')
    for c in ops.CLUSTERS:
        ops.reload_library()
        for name, fn, args, dear in [(o[1], o[3], o[4], o[2]) for o in ops.families(ops.Library((c,)), (c,))]:
            if not cx.take():
                continue
            want = cx.call(name, outcome, fn, args)
            if hasattr(fn, 'reset'):
                cx.call(name, fn.reset)
            seen = broken(fn, args, -1, Interrupt)[1].seen
            if hasattr(fn, 'reset'):
                cx.call(name, fn.reset)
            others = [a for a in ops.neighbours(args, True)][:3]
            then = [(name + ' again', fn, args, want)]
            for a in others:
                w = cx.call(name, outcome, fn, list(a))
                if hasattr(fn, 'reset'):
                    cx.call(name, fn.reset)
                then.append(('%s %r' % (name, a), fn, list(a), w))
            for at in chosen(seen, FIRST, cx.thorough and 10000 or 60):
                for kind in (Interrupt, Failure):
                    attempt(name, fn, args, at, kind, want, then)

    cx.group('mixers broken off')
    ops.reload_library()
    lib = ops.Library(('hash',))
    k1, k2, t1, t2 = ref.octets(16, 1), ref.octets(16, 2), ref.octets(6, 3), ref.octets(6, 4)
    pns = ['\x01\x02\x03\x04\x05\x06', '\x02\x02\x03\x04\x05\x06', '\x02\x02\x04\x04\x05\x06', '\xff\xff\xff\xff\x05\x06', '\0\0\0\0\x06\x06']
    for p0 in pns:
        for p1 in pns:
            if not cx.take():
                continue

            def mixer():
                m = lib.mix.TKIP_Mixer(k1, t1)
                m.newKey(p0)
                return m
            n = len(broken(mixer().newKey, [p1], -1, Interrupt)[1].seen)
            for at in range(n):
                for p2 in pns[:4]:
                    d = 'newKey(%r) broken off at point %d after newKey(%r)' % (p1, at, p0)
                    m = mixer()
                    r = cx.call(d, broken, m.newKey, [p1], at, Interrupt)
                    cx.trans(2)
                    cx.traces += 1
                    cx.ok(d, not isinstance(r, mclib.Raised) and r[0] in ('refused', ops.canon(ref.tkip_key(k1, t1, p1))), r, 'an exception')
                    cx.eq('newKey(%r) after %s' % (p2, d), ref.tkip_key(k1, t1, p2), m.newKey, p2)
                    cx.eq('newKey(%r) after newKey(%r) after %s' % (p0, p2, d), ref.tkip_key(k1, t1, p0), m.newKey, p0)
    for setter, arg, k, t in (('setKey', k2, k2, t1), ('setTA', t2, k1, t2)):
        for p0 in pns:
            if not cx.take():
                continue
            m = lib.mix.TKIP_Mixer(k1, t1)
            n = len(broken(getattr(m, setter), [arg], -1, Interrupt)[1].seen)
            for at in range(n):
                m = lib.mix.TKIP_Mixer(k1, t1)
                m.newKey(p0)
                d = '%s broken off at point %d, then repeated' % (setter, at)
                cx.call(d, broken, getattr(m, setter), [arg], at, Interrupt)
                cx.call(d, getattr(m, setter), arg)
                cx.trans(3)
                for p2 in pns[:3]:
                    cx.eq('newKey(%r) after %s' % (p2, d), ref.tkip_key(k, t, p2), m.newKey, p2)
    cx.group('keyed hashes broken off, then keyed or reset')
    H = lib.hmac
    for cls, alg in ((H.HMAC_SHA1, 'HmacSHA1'), (H.HMAC_MD5, 'HmacMD5')):
        for key in ('k', 80 * 'K', ''):
            for key2 in ('other', 100 * 'o'):
                if not cx.take():
                    continue
                for act in ('setKey', 'update', 'digest', 'reset'):
                    args = {'setKey': [key2], 'update': ['text'], 'digest': [], 'reset': []}[act]

                    def used():
                        h = cls(key)
                        h.update('before')
                        return h
                    h = used()
                    n = len(broken(getattr(h, act), args, -1, Interrupt)[1].seen)
                    for at in range(n):
                        d = '%s broken off at point %d, key %r' % (act, at, key)
                        h = used()
                        cx.call(d, broken, getattr(h, act), args, at, Failure)
                        for k in (key2, key):
                            cx.call(d, h.setKey, k)
                            cx.trans(3)
                            cx.call(d, h.update, 'a message')
                            cx.eq('digest with %r after %s' % (k, d), ref.hmac_jce(alg, k, 'a message') if k else None, h.digest) if k else None
                            cx.call(d, h.reset)
                            cx.eq('digest of nothing with %r after %s' % (k, d), ref.hmac_jce(alg, k, '') if k else None, h.digest) if k else None

    environment(cx)


def environment(cx):
    kinds = [Interrupt, Failure, NotImplementedError, OSError, IOError, ValueError, TypeError, AttributeError, RuntimeError, StopIteration, AssertionError, ImportError, KeyError, MemoryError]
    ops.reload_library()
    lib = ops.Library(('cipher', 'curve', 'hash'))
    C = lib.chacha

    def failing(k, kind, good):
        """ An answer, or the exception at the k-th request """
        count = [0]

        def f(*args):
            count[0] += 1
            if count[0] == k + 1:
                raise kind('broken')
            return good(*args)
        return f, count

    cx.group('random source that fails')
    keys = [ops.K1, ops.K2]
    for kind in kinds:
        for key in keys:
            if cx.take():
                text = 20 * 'text'
                d = 'ChaCha without a nonce, %s' % kind.__name__
                U.answers, n = failing(0, kind, lambda m: ref.octets(m, 3))
                cx.ok(d, cx.call(d, outcome, lambda: C.ChaCha(key).encrypt(text), []) == 'refused', None, 'an exception')
                cx.trans(2)
                for i in range(3):
                    w = ref.octets(12, 7 + i)
                    U.answers = lambda m: ref.octets(m, 7 + i)
                    cx.eq('the next object %d after %s' % (i, d), ref.chacha_xor(key, 0, w, text), lambda: C.ChaCha(key).encrypt(text))
        for cls in (lib.sw23, lib.sw29, lib.curves.SECP_256k1, lib.curves.SECP_521r1):
            if cx.take():
                d = 'new_private_key of %s, %s' % (cls.__name__, kind.__name__)
                U.answers = lambda m: ref.octets(m, 9)
                w = cx.call(d, lambda: cls().new_private_key())
                for k in range(2):
                    c = cls()
                    U.answers, n = failing(k, kind, lambda m: ref.octets(m, 3))
                    got = cx.call(d, outcome, c.new_private_key, [])
                    cx.ok('%s, request %d' % (d, k), got == 'refused' or n[0] <= k, got, 'an exception')
                    U.answers = lambda m: ref.octets(m, 9)
                    cx.eq('the next key after %s, request %d' % (d, k), w, c.new_private_key)
                    cx.trans(2)
    U.answers = default

    cx.group('block cipher that fails')
    K = ref.octets(64, 8)
    sealed = {}
    for size in (32, 48, 64):
        for i, ad in enumerate(([], ['a'], ['one', 'two' * 9, ''])):
            sealed[size, i] = (K[:size], ad, lib.siv.siv_encrypt(K[:size], 30 * 'p', ad))
    calls = []
    for (size, i), (key, ad, ct) in sorted(sealed.items()):
        calls.append(('siv_encrypt %d %d' % (size, i), lib.siv.siv_encrypt, [key, 30 * 'p', ad], ct))
        calls.append(('siv_decrypt %d %d' % (size, i), lib.siv.siv_decrypt, [key, ct, ad], 30 * 'p'))
        calls.append(('siv_decrypt of a forgery %d %d' % (size, i), lib.siv.siv_decrypt, [key, ct[:-1] + chr(ord(ct[-1]) ^ 1), ad], None))
        calls.append(('AES_SIV.decrypt %d %d' % (size, i), lib.siv.AES_SIV(key).decrypt, [ct, ad], 30 * 'p'))
    for size in (16, 24, 32):
        for n in (0, 16, 40):
            calls.append(('aes_cmac %d %d' % (size, n), lib.cmac.aes_cmac, [K[:size], n * 'm'], ref.cmac(K[:size], n * 'm')))
    for name, fn, args, want in calls:
        want = 'refused' if want is None else ops.canon(want)
        for kind in kinds[:4] + [ValueError]:
            if not cx.take():
                continue
            for where in ('made', 'used'):
                k = 0
                while 1:
                    hits = [0]

                    def cipher(key):
                        if where == 'made':
                            hits[0] += 1
                            if hits[0] == k + 1:
                                raise kind('broken')
                        real = standins.AESCipher(key, 1, None)

                        class Broken(object):
                            block_size = 16

                            def encrypt(self, s):
                                if where == 'used':
                                    hits[0] += 1
                                    if hits[0] == k + 1:
                                        raise kind('broken')
                                return real.encrypt(s)

                            def decrypt(self, s):
                                return real.decrypt(s)
                        return Broken()
                    standins.override = cipher
                    d = '%s, block cipher %s the %dth time raises %s' % (name, where, k, kind.__name__)
                    try:
                        got = cx.call(d, outcome, fn, args)
                    finally:
                        standins.override = None
                    reached = hits[0] > k
                    cx.ok(d, got in ('refused', want), got, reached and 'an exception' or want)
                    if not reached:
                        cx.ok('%s without a failure' % name, got == want, got, want)
                    got = cx.call(d, outcome, fn, args)
                    cx.ok('%s after %s' % (name, d), got == want, got, want)
                    cx.trans(2)
                    cx.traces += 1
                    k += 1
                    if not reached or k > 60:
                        break
    cx.group('pseudorandom function that fails')
    for kind in kinds[:6]:
        for size in (1, 20, 21, 50):
            for count in (1, 3):
                if not cx.take():
                    continue
                w = ref.pbkdf2('pass', 'salt', count, size)
                k = 0
                while 1:
                    hits = [0]

                    def PRF(key):
                        h = lib.hmac.HMAC_SHA1(key)

                        class Broken(object):
                            digest_size = 20

                            def __call__(self, data):
                                hits[0] += 1
                                if hits[0] == k + 1:
                                    raise kind('broken')
                                return h(data)
                        return Broken()
                    d = 'pbkdf2 of %d octets, %d rounds, call %d raises %s' % (size, count, k, kind.__name__)
                    got = cx.call(d, outcome, lib.pbkdf2.pbkdf2, ['pass', 'salt', count, size, PRF])
                    cx.ok(d, got == (hits[0] > k and 'refused' or ops.canon(w)), got, 'an exception')
                    cx.eq('pbkdf2 after ' + d, w, lib.pbkdf2.pbkdf2, 'pass', 'salt', count, size)
                    cx.trans(2)
                    k += 1
                    if hits[0] < k or k > 60:
                        break
