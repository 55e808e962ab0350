# Nonces, keys, counters: used as given, fresh if missing, refused if malformed
import mclib, ref

KEY, NONCE = ref.octets(32, 1), ref.octets(12, 2)
TOP = 1 << 32


def run(cx):
    M = mclib.load('cipher.chacha_poly')
    U = mclib.urandom

    def fresh(desc, answers, counters):
        """ objects without a nonce, one after the other """
        if not cx.take():
            return
        U.requests = []
        served = []
        def answer(n):
            a = answers[len(served) % len(answers)]
            a = (a * (n // len(a) + 1))[:n]
            served.append(a)
            return a
        U.answers = answer
        try:
            for i, c in enumerate(counters):
                before = len(served)
                o = cx.call(desc, M.ChaCha, KEY, counter=c) if c is not None else cx.call(desc, M.ChaCha, KEY)
                got = ''.join(served[before:])
                cx.ok('%s, object %d: octets requested' % (desc, i + 1), len(got) == 12, got, '12 octets for this object')
                if len(got) != 12:
                    continue
                if isinstance(o, mclib.Raised):
                    cx.ok('%s, object %d' % (desc, i + 1), False, o, 'an object')
                    continue
                m = ref.octets(70, i)
                cx.eq('%s, object %d: output' % (desc, i + 1), ref.chacha_xor(KEY, c or 0, got, m), o.encrypt, m)
                cx.ok('%s, object %d: no octets for encryption' % (desc, i + 1), len(''.join(served[before:])) == 12)
        finally:
            U.answers = None

    cx.group('nonces from the random source')
    alphabet = [12 * '\0', 12 * '\xff', NONCE, '\0' + NONCE[1:], NONCE[:11] + '\0', 12 * '\x80', 12 * '\n', 12 * ' ', 'abcdefghijkl'] + \
               [ref.le(1 << i, 12) for i in range(96)] + [12 * chr(v) for v in range(256)]
    for i, a in enumerate(alphabet):
        fresh('answer %d' % i, [a], (None,))
        fresh('answer %d, counter 1' % i, [a], (1,))
    cx.group('every object has its own nonce')
    small = [12 * '\0', NONCE, ref.octets(12, 7), 12 * '\xff']
    for a in range(4):
        for b in range(4):
            for c in range(4):
                for cs in ((None, None, None), (0, 1, 2), (5, None, 5)):
                    fresh('answers %d %d %d, counters %r' % (a, b, c, cs), [small[a], small[b], small[c]], cs)

    def used(desc, key, counter, nonce):
        if cx.take():
            U.requests = []
            m = ref.octets(65, 3)
            cx.eq(desc, ref.chacha_xor(key, counter, nonce, m), lambda: M.ChaCha(key, counter=counter, nonce=nonce).encrypt(m))
            cx.ok(desc + ': random source not consulted', U.requests == [], U.requests, [])

    cx.group('a given nonce is used unchanged')
    for i, a in enumerate(alphabet):
        used('nonce %d' % i, KEY, 0, a)
        used('nonce %d, counter 2^32-3' % i, KEY, TOP - 3, a)
    cx.group('the AEAD objects consult no random source')
    for i, a in enumerate(alphabet[:105]):
        for split in (0, 4, 12):
            if cx.take():
                U.requests = []
                ct, tag = ref.aead(KEY, a, 'aad', 'text')
                cx.eq('nonce %d split at %d' % (i, split), (ct, tag), lambda: tuple(M.ChaCha20_AEAD(KEY, a[:split]).encrypt('aad', a[split:], 'text')))
                cx.ok('nonce %d split at %d: random source' % (i, split), U.requests == [], U.requests, [])

    def bad(desc, f):
        if cx.take():
            cx.refused(desc, f)

    def fills(n):
        return [('zeros', n * '\0'), ('pattern', ref.octets(n, n))]

    cx.group('wrong key sizes')
    for n in list(range(0, 32)) + list(range(33, 132)) + [255, 256, 257, 288, 1024, 65568]:
        for name, k in fills(n):
            d = 'key of %d %s' % (n, name)
            bad(d + ', encrypt', lambda: M.ChaCha(k, counter=1, nonce=NONCE).encrypt('text'))
            bad(d + ', empty message', lambda: M.ChaCha(k, nonce=NONCE).encrypt(''))
            bad(d + ', no nonce', lambda: M.ChaCha(k).encrypt('text'))
            bad(d + ', AEAD', lambda: M.ChaCha20_AEAD(k, NONCE[:4]).encrypt('aad', NONCE[4:], 'text'))
            bad(d + ', AEAD, empty', lambda: M.ChaCha20_AEAD(k, NONCE[:4]).encrypt('', NONCE[4:], ''))
            bad(d + ', one-string AEAD', lambda: M.ChaCha_Poly_AEAD(k, NONCE[:4]).encrypt('aad', NONCE[4:], 'text'))
            bad(d + ', AEAD decrypt', lambda: M.ChaCha20_AEAD(k, NONCE[:4]).decrypt('aad', NONCE[4:], 'text'))
            bad(d + ', one-string AEAD decrypt', lambda: M.ChaCha_Poly_AEAD(k, NONCE[:4]).decrypt('aad', NONCE[4:] + 40 * 'x'))
    cx.group('wrong nonce sizes')
    for n in list(range(0, 12)) + list(range(13, 80)) + [96, 255, 256, 268, 1024]:
        for name, v in fills(n):
            bad('nonce of %d %s' % (n, name), lambda: M.ChaCha(KEY, counter=1, nonce=v).encrypt('text'))
            bad('nonce of %d %s, empty message' % (n, name), lambda: M.ChaCha(KEY, nonce=v).encrypt(''))
    cx.group('wrong AEAD nonce sizes')
    for a in range(0, 20):
        for b in range(0, 26):
            if a + b != 12:
                for name, x in fills(a + b):
                    bad('constant of %d and iv of %d, %s' % (a, b, name), lambda: M.ChaCha20_AEAD(KEY, x[:a]).encrypt('aad', x[a:], 'text'))
                    bad('constant of %d and iv of %d, %s, one-string' % (a, b, name), lambda: M.ChaCha_Poly_AEAD(KEY, x[:a]).encrypt('aad', x[a:], 'text'))
                    bad('constant of %d and iv of %d, %s, decrypt' % (a, b, name), lambda: M.ChaCha20_AEAD(KEY, x[:a]).decrypt('aad', x[a:], 'text'))
    cx.group('wrong initial counters')
    for c in [-1, -2, -255, -256, -65536] + [-(1 << k) + d for k in (16, 31, 32, 33, 63, 64) for d in (-1, 0, 1)] + \
             [(1 << k) + d for k in (32, 33, 40, 48, 63, 64, 65, 96, 128) for d in (0, 1, 5)] + [TOP * 3 - 1, TOP * 2 - 1]:
        bad('counter %d' % c, lambda: M.ChaCha(KEY, counter=c, nonce=NONCE).encrypt('text'))
        bad('counter %d, empty message' % c, lambda: M.ChaCha(KEY, counter=c, nonce=NONCE).encrypt(''))
        bad('counter %d, no nonce' % c, lambda: M.ChaCha(KEY, counter=c).encrypt('text'))
    cx.group('right counters')
    for c in [0, 1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, TOP - 2]:
        used('counter %d' % c, KEY, c, NONCE)
