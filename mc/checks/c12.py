# Histories of HMAC objects.  Model: (key, octets since the last reset).
# One-shot call: the digest of what is pending and its argument, then a reset
# unless more is asked for.
import mclib, standins, ref


class Model(object):
    def __init__(self, mac, key):
        self.mac, self.key, self.buf = mac, key, ''

    def apply(self, op):
        """ -> (kind of answer, value) """
        k = op[0]
        if k == 'k':
            self.key, self.buf = op[1], ''
            return 'any', None
        if self.key is None:
            return 'refused' if k in 'ducm' else 'any', None
        if k == 'u':
            self.buf += op[1]
            return 'any', None
        if k == 'r':
            self.buf = ''
            return 'any', None
        if k == 'd':
            return 'value', self.mac(self.key, self.buf)
        self.buf += op[1]
        v = self.mac(self.key, self.buf)
        if k == 'c':
            self.buf = ''
        return 'value', v


def run(cx):
    M = standins.keyed('hmac')

    def perform(o, op):
        k = op[0]
        if k == 'k':
            return o.setKey(op[1])
        if k == 'u':
            return o.update(op[1])
        if k == 'r':
            return o.reset()
        if k == 'd':
            return o.digest()
        if k == 'c':
            return o(op[1])
        if k == 'h':
            return o.hash(op[1])
        return o(op[1], 1)

    MAKE = {'SHA1': (lambda *a: M.HMAC_SHA1(*a), ref.hmac_sha1), 'MD5': (lambda *a: M.HMAC_MD5(*a), ref.hmac_md5),
            'HMAC(SHA1)': (lambda *a: M.HMAC(M.SHA1, *a), ref.hmac_sha1), 'HMAC(MD5)': (lambda *a: M.HMAC(M.MD5, *a), ref.hmac_md5)}
    NAMES = ['SHA1', 'MD5', 'HMAC(SHA1)', 'HMAC(MD5)']

    def history(desc, setups, ops):
        models = [Model(MAKE[n][1], k) for n, k in setups]
        objs = [cx.call(desc, MAKE[n][0], *([k] if k is not None else [])) for n, k in setups]
        for step, (w, op) in enumerate(ops):
            kind, v = models[w].apply(op)
            d = '%s, step %d of %s' % (desc, step + 1, ' '.join(['%d%s%s' % (x, o[0], len(o[1]) if len(o) > 1 else '') for x, o in ops]))
            if kind == 'value':
                cx.eq(d, v, perform, objs[w], op)
            elif kind == 'refused':
                cx.refused(d, perform, objs[w], op)
            else:
                r = cx.call(d, perform, objs[w], op)
                if models[w].key is not None:
                    cx.ok(d, not isinstance(r, mclib.Raised), r, 'no exception')
            cx.trans()
            cx.state([(s[0], m.key, m.buf) for s, m in zip(setups, models)])
        # what is pending is right at the end of every history
        for w, m in enumerate(models):
            if m.key is not None:
                cx.eq('%s, final digest of %d after %s' % (desc, w, ' '.join(['%d%s%s' % (x, o[0], len(o[1]) if len(o) > 1 else '') for x, o in ops])),
                      m.mac(m.key, m.buf), objs[w].digest)
        cx.traces += 1

    def seqs(alphabet, depth):
        if depth == 0:
            return [[]]
        return [[a] + s for a in alphabet for s in seqs(alphabet, depth - 1)]

    K1, K2, K3 = ref.octets(20, 1), ref.octets(64, 2), ref.octets(65, 3)
    cx.group('one object')
    alphabet = [(0, o) for o in (('k', K1), ('k', K2), ('k', K3), ('k', ''), ('u', ''), ('u', 'abc'), ('u', ref.octets(64, 4)), ('d',), ('r',),
                                 ('c', ''), ('c', 'xyz'), ('m', 'pq'))]
    for name in ('SHA1', 'HMAC(MD5)'):
        for start in (K1, None):
            for ops in seqs(alphabet, 3):
                if cx.take():
                    history('%s %s' % (name, 'keyed' if start else 'without a key'), [(name, start)], ops)
    cx.group('one object, longer histories')
    for ops in seqs([(0, o) for o in (('k', K3), ('u', 'a'), ('u', ref.octets(63, 4)), ('d',), ('r',), ('c', 'xyz'))], cx.thorough and 7 or 5):
        if cx.take():
            history('SHA1', [('SHA1', K2)], ops)
    cx.group('two objects')
    ab = [(w, o) for w in (0, 1) for o in (('u', 'abc'), ('d',), ('c', 'x'), ('k', K1), ('r',))]
    for setups in ([('SHA1', K1), ('SHA1', K1)], [('SHA1', K1), ('SHA1', K3)], [('MD5', K1), ('SHA1', K1)], [('MD5', K1), ('MD5', K2)]):
        for ops in seqs(ab, cx.thorough and 4 or 3):
            if cx.take():
                history('%r' % [n for n, k in setups], setups, ops)
    cx.group('an object without a key')
    for name in NAMES:
        for ops in seqs([(0, o) for o in (('u', 'abc'), ('d',), ('c', 'x'))], 3):
            if cx.take():
                history(name, [(name, None)], ops)
                history(name + ', keyed later', [(name, None)], ops + [(0, ('k', K1)), (0, ('u', 'abc')), (0, ('d',))])

    def oneshot(desc, name, key, data):
        if cx.take():
            w = MAKE[name][1](key, data)
            o = cx.call(desc, MAKE[name][0], key)
            cx.eq(desc + ', called', w, lambda: o(data))
            cx.eq(desc + ', called again', w, lambda: o(data))
            o2 = cx.call(desc, MAKE[name][0])
            cx.call(desc, lambda: o2.setKey(key))
            cx.call(desc, lambda: o2.update(data[:len(data) // 2]))
            cx.call(desc, lambda: o2.update(data[len(data) // 2:]))
            cx.eq(desc + ', updated', w, lambda: o2.digest())
            cx.eq(desc + ', digest again', w, lambda: o2.digest())

    cx.group('every key length from 0 to 200')
    for name in NAMES:
        for n in range(201):
            for data in ('', 'data', ref.octets(64, 1)):
                oneshot('%s, key of %d, data of %d' % (name, n, len(data)), name, ref.octets(n, n), data)
    cx.group('long keys')
    for name in NAMES:
        for n in (255, 256, 257, 511, 512, 513, 1024, 4096, 65536):
            oneshot('%s, key of %d' % (name, n), name, ref.octets(n, n), 'data')
    cx.group('every data length from 0 to 200')
    for name in NAMES:
        for n in range(201):
            oneshot('%s, data of %d' % (name, n), name, K1, ref.octets(n, n))
    for n in (255, 256, 1024, 65535, 65536, 65537):
        oneshot('SHA1, data of %d' % n, 'SHA1', K1, ref.octets(n, n))
    for name in NAMES:
        for n in range(201, 1100) + [2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 131072, 131073]:
            if name == 'SHA1' or n % 8 < 2 or cx.thorough:
                oneshot('%s, data of %d' % (name, n), name, K1, ref.octets(n, n))
    cx.group('key and data of the same or neighbouring lengths')
    for name in NAMES:
        for n in (16, 20, 32, 40, 55, 56, 63, 64, 65, 80, 96, 119, 120, 127, 128, 129, 192, 256):
            for m in (n - 1, n, n + 1, 2 * n, 3 * n):
                oneshot('%s, key of %d, data of %d' % (name, n, m), name, ref.octets(n, n), ref.octets(m, n))
    cx.group('many updates')
    for name in NAMES:
        for size in range(0, 70) + [127, 128, 129, 1000]:
            for count in (2, 3, 17, 65, 300):
                if cx.take():
                    parts = [ref.octets(size, i) for i in range(count)]
                    o = cx.call('%s, %d updates of %d' % (name, count, size), MAKE[name][0], K1)
                    for i, p in enumerate(parts):
                        cx.call('%s, %d updates of %d' % (name, count, size), o.update, p)
                        if i in (0, 1, 15, 16, 63, 64, 254, 255, 256, count - 1):
                            cx.eq('%s, %d updates of %d, digest after %d' % (name, count, size, i), MAKE[name][1](K1, ''.join(parts[:i + 1])), o.digest)
                    cx.trans(count)
    cx.group('many messages with one object')
    for name in NAMES:
        if cx.take():
            o = cx.call(name, MAKE[name][0], K3)
            for i in range(600):
                cx.eq('%s, message %d' % (name, i), MAKE[name][1](K3, ref.octets(i % 130, i)), lambda: o(ref.octets(i % 130, i)))
                if i % 50 == 7:
                    cx.call('%s, digest after message %d' % (name, i), o.digest)
                    cx.call('%s, reset after message %d' % (name, i), o.reset)
        if cx.take():
            o = cx.call(name, MAKE[name][0])
            for i in range(300):
                k = ref.octets(i % 90, i)
                cx.call('%s, key %d' % (name, i), o.setKey, k)
                cx.eq('%s, key %d' % (name, i), MAKE[name][1](k, 'message'), lambda: o('message'))
    cx.group('key forms')
    for name in NAMES:
        for n in (1, 16, 63, 64, 65, 80, 128):
            for f, k in (('zeros', n * '\0'), ('ones', n * '\xff'), ('0x36', n * '\x36'), ('0x5c', n * '\x5c'), ('trailing zeros', 'k' + n * '\0'),
                         ('leading zeros', n * '\0' + 'k'), ('spaces', n * ' '), ('newline', ref.octets(n, 1) + '\n')):
                oneshot('%s, key of %d %s' % (name, len(k), f), name, k, 'data')
    cx.group('single octets of keys and data')
    for v in range(256):
        oneshot('SHA1, octet %d' % v, 'SHA1', chr(v), chr(v))
        oneshot('MD5, octet %d' % v, 'MD5', 'k' + chr(v), 'd' + chr(v))
