# PBKDF2 and the WPA passphrase mapping
import mclib, standins, ref
from javax.crypto import SecretKeyFactory
from javax.crypto.spec import PBEKeySpec


def jce(password, salt, iterations, size):
    """ the Java platform's PBKDF2, for passwords of ASCII characters """
    f = SecretKeyFactory.getInstance('PBKDF2WithHmacSHA1')
    from java.lang import String
    s = PBEKeySpec(String(password).toCharArray(), ref.jb(salt), iterations, 8 * size)
    return ref.sb(f.generateSecret(s).getEncoded())


def small_prf(size):
    """ a keyed function of another digest size, with the interface of HMAC """
    class PRF(object):
        digest_size = size
        def __init__(self, key=None):
            self.key = key
        def setKey(self, key):
            self.key = key
        def __call__(self, data, more=None):
            return value(self.key, data)
        hash = __call__
    def value(key, data):
        return (ref.hmac_sha1(key, data) + ref.hmac_md5(key, data) + ref.hmac_sha1(data or '\0', key))[:size]
    return PRF, value


def chosen_prf(size, first, step):
    """ a PRF whose value for a salt and block number is first(block) and for one of its values step(value) """
    def value(key, data):
        r = first(ref.num_be(data[-4:])) if len(data) != size else step(ref.num_be(data))
        return ref.be(r % 256 ** size, size)
    class PRF(object):
        digest_size = size
        def __init__(self, key=None):
            self.key = key
        def __call__(self, data, more=None):
            return value(self.key, data)
        hash = __call__
        def setKey(self, key):
            self.key = key
    return PRF, value


def run(cx):
    M = standins.keyed('pbkdf2')
    H = standins.keyed('hmac')
    f = M.pbkdf2
    P, S = 'password', 'salt'

    def one(desc, password, salt, iterations, size):
        if cx.take():
            w = ref.pbkdf2(password, salt, iterations, size)
            cx.eq(desc, w, f, password, salt, iterations, size)

    cx.group('every key size from 0 to 300')
    for n in range(301):
        for it in (1, 2, 3):
            one('size %d, %d iterations' % (n, it), P, S, it, n)
    cx.group('large keys')
    for n in (319, 320, 321, 1000, 2540, 5100, 5101, 5119, 5120, 5121, 5140, 6000, 9999, 10000):
        one('size %d' % n, P, S, 1, n)
    cx.group('every password length from 0 to 63')
    for n in range(64):
        for size in (16, 20, 32, 41):
            one('password of %d, size %d' % (n, size), ref.octets(n, n), S, 2, size)
    cx.group('every salt length from 0 to 150')
    for n in range(151):
        one('salt of %d' % n, P, ref.octets(n, n), 2, 25)
    for n in (255, 256, 1000, 65536):
        one('salt of %d' % n, P, ref.octets(n, n), 2, 25)
    cx.group('every iteration count from 1 to 130')
    for it in range(1, 131):
        one('%d iterations' % it, P, S, it, 45)
    for it in (254, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024, 2000, 4095, 4096, 4097, 10000):
        one('%d iterations' % it, P, S, it, 20)
    cx.group('zeros and forms')
    for p in ('\0', '\0\0', 63 * '\0', 'a\0', '\0a', 'password\n', ' password', 63 * '\xff', 'PASSWORD'):
        for s in ('\0', '', 'salt\0', '\0salt', 'SALT', '\0\0\0\1', 'salt\0\0\0\1', 64 * '\xff'):
            for size in (5, 20, 40):
                one('%r, %r, %d' % (p, s, size), p, s, 3, size)
    cx.group('products')
    for i, p in enumerate(('', 'p', P, ref.octets(63, 2))):
        for j, s in enumerate(('', 's', S, ref.octets(40, 3))):
            for it in (1, 2, 5, 7):
                for size in (1, 19, 20, 21, 39, 40, 41, 60, 61):
                    one('password %d, salt %d, %d iterations, size %d' % (i, j, it, size), p, s, it, size)
    cx.group('given pseudorandom functions')
    for size in (1, 4, 8, 16, 20, 32, 33, 48):
        PRF, value = small_prf(size)
        for n in list(range(0, 70)) + [128, 300 * size, 256 * size]:
            for it in (1, 2, 4):
                if n <= 10000 and cx.take():
                    w = ref.pbkdf2(P, S, it, n, value, size)
                    cx.eq('%d octets, size %d, %d iterations' % (size, n, it), w, f, P, S, it, n, PRF)
                    if n == 32:
                        cx.eq('%d octets by keyword' % size, w, lambda: f(P, S, it, n, PRF=PRF))
    for n in range(0, 70):
        for it in (1, 2, 3):
            if cx.take():
                cx.eq('HMAC-MD5, size %d, %d iterations' % (n, it), ref.pbkdf2(P, S, it, n, ref.hmac_md5, 16), f, P, S, it, n, H.HMAC_MD5)
    cx.group('chosen values of the pseudorandom function')
    for size in (4, 16, 20, 32):
        top = 256 ** size - 1
        firsts = [lambda b: 0, lambda b: b - 1, lambda b: top, lambda b: 1 << 8 * size - b, lambda b: (b - 1) * 256 ** (size - 1), lambda b: b * (top // 255)]
        firsts += [(lambda b, k=k: b << k) for k in range(0, 8 * size, 4)]
        steps = [lambda u: u, lambda u: u ^ top, lambda u: 0, lambda u: u + 1, lambda u: 2 * u, lambda u: u >> 8, lambda u: u << 8, lambda u: 1]
        for i, first in enumerate(firsts):
            for j, step in enumerate(steps):
                if cx.take():
                    PRF, value = chosen_prf(size, first, step)
                    for it in range(1, 9) + [40]:
                        for n in (size - 1, size, 3 * size + 1):
                            cx.eq('%d octets, values %d, %d, %d iterations, size %d' % (size, i, j, it, n), ref.pbkdf2(P, 'saltsalt', it, n, value, size), f, P, 'saltsalt', it, n, PRF)
    cx.group('every key size to 10000, simple function')
    PRF, value = chosen_prf(20, lambda b: b * 0x123456789abcdef0123, lambda u: 5 * u + 3)
    stream = ref.pbkdf2(P, 'saltsalt', 1, 10000, value, 20)
    for n in range(10001):
        if (n % 20 in (0, 1, 19) or n % 256 in (0, 255) or cx.thorough) and cx.take():
            cx.eq('size %d' % n, stream[:n], f, P, 'saltsalt', 1, n, PRF)
    cx.group('every iteration count, simple function')
    for it in list(range(1, cx.thorough and 4200 or 1100)) + [2 ** k + d for k in range(11, 17) for d in (-1, 0, 1)]:
        if cx.take():
            cx.eq('%d iterations' % it, ref.pbkdf2(P, 'saltsalt', it, 20, value, 20), f, P, 'saltsalt', it, 20, PRF)
    cx.group('sequences of calls')
    calls = [(P, S, 1, 20), (P, S, 2, 20), (P, 'salu', 1, 20), ('passworD', S, 1, 20), (P, S, 1, 41), (P + 's', 'alt', 1, 20), (P, S, 1, 0)]
    for a in range(7):
        for b in range(7):
            for c in range(7):
                if cx.take():
                    for step, x in enumerate((a, b, c)):
                        cx.eq('calls %d %d %d, step %d' % (a, b, c, step + 1), ref.pbkdf2(*calls[x]), f, *calls[x])
    cx.group('sequences of calls with other functions')
    prfs = [(None, ref.hmac_sha1, 20), (H.HMAC_MD5, ref.hmac_md5, 16)] + [small_prf(16) + (16,), small_prf(20) + (20,), chosen_prf(20, lambda b: b << 9, lambda u: 3 * u + 1) + (20,)]
    for a in range(len(prfs)):
        for b in range(len(prfs)):
            for c in range(len(prfs)):
                if cx.take():
                    for step, x in enumerate((a, b, c)):
                        PRF, value, n = prfs[x]
                        cx.eq('functions %d %d %d, step %d' % (a, b, c, step + 1), ref.pbkdf2(P, S, 2, 37, value, n), f, *((P, S, 2, 37) + (PRF and (PRF,) or ())))
    cx.group('WPA passphrases')
    for n in range(8, 64):
        if cx.take():
            p = (P + 'abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ')[:n]
            cx.eq('passphrase of %d' % n, jce(p, 'ThisIsASSID', 4096, 32), M.dot11PassPhraseToPSK, p, 'ThisIsASSID')
    for n in (0, 1, 16, 32):
        if cx.take():
            cx.eq('ssid of %d' % n, jce('passphrase', ref.octets(n, n) or '', 4096, 32) if n else ref.pbkdf2('passphrase', '', 4096, 32),
                  M.dot11PassPhraseToPSK, 'passphrase', ref.octets(n, n))
    cx.group('forms of passphrases and ssids')
    texts = [8 * '0', 63 * 'f', ' passphrase', 'passphrase ', 'passphrase\n', 'Passphrase', 'PASSPHRASE', 'pass phrase', '0x123456', '12345678', 'pass\tphrase', 'pass"phrase"']
    for i, t in enumerate(texts):
        for k, n in enumerate(('ssid', 'SSID', ' ssid', 'ssid ', 'ssid\n', 'ssid\0', '"ssid"', 32 * 's', 33 * 's', '\0', '1')):
            if (i == 0 or k == 0 or i == k or cx.thorough) and cx.take():
                cx.eq('passphrase %r, ssid %r' % (t, n), jce(t, n, 4096, 32), M.dot11PassPhraseToPSK, t, n)
    cx.group('sequences of passphrases')
    both = 'abcdefghijklmnop'
    for i, seq in enumerate([[(both[:k], both[k:]) for k in range(8, 16)], [(both[:k], both[k:]) for k in range(15, 7, -1)],
                             [('passphrase', 'a'), ('passphrase', 'b'), ('passphrase', 'a'), ('Passphrase', 'a'), ('passphrase\0', 'a'), ('passphrase', 'a\0')],
                             [('passphrase', 'aa'), ('passphrase' + 'x' * 30, 'aa'), ('passphrase' + 'x' * 29 + 'y', 'aa'), ('passphrase', 'aa')]]):
        if cx.take():
            for step, (t, n) in enumerate(seq):
                d = 'sequence %d, step %d' % (i, step + 1)
                cx.eq(d, jce(t, n, 4096, 32), M.dot11PassPhraseToPSK, t, n)
                cx.eq(d + ', pbkdf2', jce(t, n, 4096, 32)[:20], f, t, n, 4096, 20)
    cx.group('wrong passphrase sizes')
    for n in list(range(0, 8)) + list(range(64, 140)) + [255, 256, 263, 1024]:
        for c in ('a', '\0'):
            if cx.take():
                cx.refused('%d octets %r' % (n, c), M.dot11PassPhraseToPSK, n * c, 'ssid')
    if cx.thorough:
        cx.group('every key size to 2000')
        for n in range(301, 2001):
            one('size %d' % n, P, S, 2, n)
        cx.group('every iteration count to 1500')
        for it in range(131, 1501):
            one('%d iterations' % it, P, S, it, 21)
