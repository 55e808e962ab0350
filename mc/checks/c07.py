# AES-CMAC against SP 800-38B, for AES and for other 128-bit block ciphers
import mclib, standins, ref


class XorCipher(object):
    """ A 128-bit 'block cipher' whose L is chosen freely: E(x) = x ^ key """
    block_size = 16
    MODE_ECB = 1
    def __init__(self, key, log=None):
        self.key = (key * 2)[:16]
    def encrypt(self, s):
        assert len(s) % 16 == 0
        return ''.join([ref.xors(s[i:i + 16], self.key) for i in range(0, len(s), 16)])


class MixCipher(object):
    """ E(x) = AES under the inverted key with the octets reversed """
    block_size = 16
    MODE_ECB = 1
    def __init__(self, key):
        self.key = ''.join([chr(255 - ord(c)) for c in key])
    def encrypt(self, s):
        assert len(s) % 16 == 0
        return ''.join([mix_ecb0(self.key, s[i:i + 16]) for i in range(0, len(s), 16)])


def mix_ecb0(key, block):
    return ref.aes_ecb(key, block)[::-1]


class Module(object):
    """ looks like Crypto.Cipher.AES """
    MODE_ECB, MODE_CBC, block_size, key_size = 1, 2, 16, (16, 24, 32)
    def __init__(self, cls):
        self.cls = cls
    def new(self, key, *args, **kw):
        return self.cls(key)


def xor_ecb(key, block):
    return XorCipher(key).encrypt(block)


def mix_ecb(key, block):
    return MixCipher(key).encrypt(block)


def run(cx):
    standins.install_aes()
    M = mclib.load('cipher.aes_cmac')
    cmac = M.aes_cmac
    XOR, MIX = Module(XorCipher), Module(MixCipher)

    def one(desc, key, msg):
        if cx.take():
            cx.eq(desc, ref.cmac(key, msg), cmac, key, msg)

    def other(desc, key, msg, module=XOR, ecb=xor_ecb):
        if cx.take():
            cx.eq(desc, ref.cmac(key, msg, ecb), cmac, key, msg, module)

    K = ref.octets(16, 1)
    keys = {16: K, 24: ref.octets(24, 2), 32: ref.octets(32, 3)}
    cx.group('every length from 0 to 300, three key sizes')
    for n in range(301):
        for size in (16, 24, 32):
            one('key of %d, message of %d' % (8 * size, n), keys[size], ref.octets(n, n))
    cx.group('long messages')
    for n in (511, 512, 513, 1024, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 100000, 131072, 131073, 262145) + (cx.thorough and ((1 << 20) + 1, (1 << 22) + 15) or ()):
        for size in (16, 32):
            one('key of %d, message of %d' % (8 * size, n), keys[size], ref.octets(n, n))
    msgs = [('empty', ''), ('1', '\0'), ('15', ref.octets(15, 4)), ('16', ref.octets(16, 5)), ('17', ref.octets(17, 6)), ('32', ref.octets(32, 7))]
    cx.group('every single bit of the key')
    for size in (16, 24, 32):
        for i in range(8 * size):
            for name, m in msgs:
                one('key of %d, bit %d, message %s' % (8 * size, i, name), ref.be(1 << i, size), m)
    cx.group('key classes')
    for size in (16, 24, 32):
        for kn, k in (('zero', size * '\0'), ('ones', size * '\xff'), ('count', ''.join([chr(i) for i in range(size)]))):
            for name, m in msgs:
                one('key of %d %s, message %s' % (8 * size, kn, name), k, m)
    cx.group('message forms')
    for n in range(0, 50):
        for name, m in (('zeros', n * '\0'), ('ones', n * '\xff'), ('0x80', n * '\x80'), ('0x80 at the end', n * '\x01' + '\x80'),
                        ('0x80 and zeros at the end', 'abc' + '\x80' + n * '\0'), ('newlines', n * '\n')):
            one('%s %d' % (name, n), K, m)
    cx.group('many keys (all cases of the two carries, leading zero octets of the subkeys)')
    carries = set()
    for i in range(cx.thorough and 300000 or 24000):
        k = ref.octets(16, 1000 + i)
        one('key %d, empty' % i, k, '')
        one('key %d, full block' % i, k, 16 * 'x')
    cx.group('chosen L by another block cipher')
    Ls = [16 * '\0', 16 * '\xff', 16 * '\x80', 16 * '\x7f', 16 * '\x40'] + [ref.be(1 << i, 16) for i in range(128)] + \
         [ref.be((1 << i) - 1, 16) for i in range(1, 129)] + [ref.be(((1 << 128) - 1) ^ (1 << i), 16) for i in range(128)] + \
         [ref.be((1 << 127) | (1 << i), 16) for i in range(127)] + [ref.be((3 << 126) | (1 << i), 16) for i in range(126)] + \
         [ref.be((1 << 126) | (1 << i), 16) for i in range(126)] + [i * '\0' + ref.octets(16 - i, i) for i in range(1, 16)] + \
         [ref.octets(16 - i, i) + i * '\0' for i in range(1, 16)]
    for i, L in enumerate(Ls):
        for name, m in msgs:
            other('L %d, message %s' % (i, name), L, m)
    cx.group('another block cipher for the whole calculation')
    for n in range(0, 100):
        other('message of %d' % n, K, ref.octets(n, n), MIX, mix_ecb)
    for i in range(300):
        other('key %d' % i, ref.octets(16 + 8 * (i % 3), i), ref.octets(i % 40, i), MIX, mix_ecb)
    if hasattr(M, 'subkey'):
        cx.group('subkeys are one block long')
        for i, L in enumerate(Ls):
            if cx.take():
                k1 = ref.gf128_double(L)
                cx.eq('L %d' % i, (k1, ref.gf128_double(k1)), lambda: tuple(M.subkey(L, XOR)))
        for i in range(300):
            if cx.take():
                k = ref.octets(16, i)
                k1 = ref.gf128_double(ref.aes_ecb(k, 16 * '\0'))
                cx.eq('AES key %d' % i, (k1, ref.gf128_double(k1)), lambda: tuple(M.subkey(k)))
    cx.group('sequences of keys and ciphers')
    steps = [(K, 'abc', None), (K, 16 * 'a', None), (keys[32], 'abc', None), (K, 'abc', XOR), (K, 'abc', MIX), (K, '', None)]
    for a in range(6):
        for b in range(6):
            for c in range(6):
                if cx.take():
                    for step, x in enumerate((a, b, c)):
                        k, m, mod = steps[x]
                        d = 'calls %d %d %d, step %d' % (a, b, c, step + 1)
                        if mod is None:
                            cx.eq(d, ref.cmac(k, m), cmac, k, m)
                        else:
                            cx.eq(d, ref.cmac(k, m, xor_ecb if mod is XOR else mix_ecb), cmac, k, m, mod)
    if cx.thorough:
        cx.group('every length from 301 to 2100')
        for n in range(301, 2101):
            one('message of %d' % n, K, ref.octets(n, n))
