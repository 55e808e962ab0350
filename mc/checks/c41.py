# Walsh spectra and non-linearity
import mclib, ref
import itertools

W = mclib.load('analysis.walshtransform')
S = mclib.load('analysis.sbox_nonlinearity')
MODULES = (('walshtransform', W), ('sbox_nonlinearity', S))


def parity(x):
    return bin(x).count('1') & 1


def spectrum(t):
    """ Fast transform """
    v = [1 - 2 * b for b in t]
    h = 1
    while h < len(v):
        for i in range(0, len(v), 2 * h):
            for j in range(i, i + h):
                v[j], v[j + h] = v[j] + v[j + h], v[j] - v[j + h]
        h *= 2
    return v


def nonlinear(t):
    return (len(t) - max(abs(x) for x in spectrum(t))) / 2.0


def run(cx):
    def sequence(t):
        w = spectrum(t)
        nl = (len(t) - max(max(w), -min(w))) / 2.0
        for name, m in MODULES:
            cx.eq('%s.walshTransform(%s)' % (name, t), w, lambda: list(m.walshTransform(t)))
            cx.eq('%s.nonLinearity(%s)' % (name, t), nl, m.nonLinearity, t)

    cx.group('every binary sequence')
    for n in (1, 2, 4, 8):
        for t in itertools.product((0, 1), repeat=n):
            if cx.take():
                sequence(list(t))
                sequence(tuple(t))
    step = cx.thorough and 1 or 4
    for part in range(0, 65536, 64 * step):
        if cx.take():
            for x in range(part, part + 64 * step, step):
                x ^= (x >> 4 ^ x >> 9 ^ x >> 13) & (step - 1)
                sequence([x >> i & 1 for i in range(16)])
    cx.group('longer sequences')
    for n in (5, 6) + (cx.thorough and (7, 8) or ()):
        size = 1 << n
        for a in range(size):                      # every linear and affine function
            if cx.take():
                sequence([parity(a & x) for x in range(size)])
                sequence([1 - parity(a & x) for x in range(size)])
                sequence([int(x == a) for x in range(size)])
                sequence([parity(a & x) ^ (x & 1 & x >> 1) for x in range(size)])
        if cx.take():
            h = n // 2
            sequence([parity(x & x >> h & (1 << h) - 1) for x in range(size)])      # bent for even n
            sequence([int(x >= size // 2) for x in range(size)])
            sequence([int(bin(x).count('1') > n // 2) for x in range(size)])
    for n in (7, 8, 9) + (cx.thorough and (10, 11) or ()):
        size, h = 1 << n, n // 2
        for a in (0, 1, 2, 3, size // 2 - 1, size // 2, size // 2 + 1, size - 2, size - 1):
            if cx.take():
                sequence([parity(a & x) for x in range(size)])
                sequence([1 - parity(a & x) for x in range(size)])
                sequence([int(x == a) for x in range(size)])
                sequence([int(x < a) for x in range(size)])
                sequence([parity(a & x) ^ parity(x & x >> h & (1 << h) - 1) for x in range(size)])
                sequence([ord(c) & 1 for c in ref.octets(size, a)])
    cx.group('other lengths are refused')
    for n in range(0, 70):
        if n & (n - 1) or n == 0:
            if cx.take():
                for name, m in MODULES:
                    for bit in (0, 1):
                        cx.refused('%s.walshTransform(%d * [%d])' % (name, n, bit), m.walshTransform, n * [bit])
                        cx.refused('%s.nonLinearity(%d * [%d])' % (name, n, bit), m.nonLinearity, n * [bit])
    for n in (3, 5, 6, 7, 9, 12, 15, 17, 31, 33):
        if cx.take():
            cx.refused('sboxNonlinearity of length %d' % n, S.sboxNonlinearity, range(n))
    cx.group('helpers')
    for a in range(0, 64):
        if cx.take():
            for name, m in [x for x in MODULES if hasattr(x[1], 'binaryInnerProduct')]:
                for b in range(0, 64):
                    cx.eq('%s.binaryInnerProduct(%d, %d)' % (name, a, b), parity(a & b), m.binaryInnerProduct, a, b)
    for a in (255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 64) - 1, 1 << 64, (1 << 100) - 1):
        if cx.take():
            for name, m in [x for x in MODULES if hasattr(x[1], 'binaryInnerProduct')]:
                for b in (0, 1, 3, 255, 256, (1 << 31), (1 << 63) + 1, (1 << 64) - 1, (1 << 128) - 1):
                    cx.eq('%s.binaryInnerProduct(%d, %d)' % (name, a, b), parity(a & b), m.binaryInnerProduct, a, b)
                    cx.eq('%s.binaryInnerProduct(%d, %d)' % (name, b, a), parity(a & b), m.binaryInnerProduct, b, a)
    for name, m in [x for x in MODULES if hasattr(x[1], 'log2n')]:
        for k in range(0, 130):
            if cx.take():
                cx.eq('%s.log2n(2**%d)' % (name, k), k, m.log2n, 1 << k)
                for x in ((1 << k) + 1, (1 << k) - 1, (1 << k) * 3, (1 << k) + (1 << k // 2)):
                    if x & (x - 1) or x == 0:
                        cx.refused('%s.log2n(%d)' % (name, x), m.log2n, x)
        for n in range(0, 2100):
            if n & (n - 1) or n == 0:
                if cx.take():
                    cx.refused('%s.log2n(%d)' % (name, n), m.log2n, n)

    def sbox(name, s):
        v = [nonlinear([parity(c & y) for y in s]) for c in range(1, len(s))]
        cx.eq('sboxNonlinearity(%s)' % name, (min(v), max(v)), lambda: tuple(S.sboxNonlinearity(s)))
    cx.group('every S-box of 2 and 4 entries, permutations of 8')
    for s in itertools.product(range(2), repeat=2):
        if cx.take():
            sbox(repr(s), list(s))
    for s in itertools.product(range(4), repeat=4):
        if cx.take():
            sbox(repr(s), list(s))
            sbox(repr(s), tuple(s))
    for k, s in enumerate(itertools.permutations(range(8))):
        if (cx.thorough or k % 67 == 0) and cx.take():
            sbox(repr(s), list(s))
    cx.group('S-boxes of 8 and 16 entries that are no permutations')
    for s in itertools.product((0, 3, 5, 7), repeat=3):
        for r in ((0, 1, 2, 3, 4), (7, 7, 7, 0, 0), (6, 5, 3, 2, 1)):
            if (cx.thorough or (s[0] + 2 * s[1] + 3 * s[2] + r[0]) % 4 == 0) and cx.take():
                sbox(repr(s + r), list(s + r))
    known = {'PRESENT': 'c56b90ad3ef84712', 'Serpent S0': '38f1a65bed42709c', 'identity': '0123456789abcdef', 'constant': '5' * 16, 'two valued': '0f' * 8,
             'one bit': '0100000000000000', 'squares': ''.join('%x' % (i * i % 16) for i in range(16)), 'Kuznyechik-like': 'c462a5b9e8d703f1', 'AES inverse of 16': '019edb76f2c5a438'}
    for name, s in sorted(known.items()):
        if cx.take():
            sbox(name, [int(c, 16) for c in s])
    for b in range(4):
        for i in range(16):
            if cx.take():
                s = range(16)
                s[i] ^= 1 << b
                sbox(repr(s), s)
    cx.group('S-boxes of 32 entries')
    for m in (1, 3, 5, 7, 11, 13) + (cx.thorough and tuple(range(15, 32, 2)) or ()):
        if cx.take():
            sbox('x -> %d x' % m, [x * m % 32 for x in range(32)])
            sbox('x -> %d x^3' % m, [m * x ** 3 % 32 for x in range(32)])
    cx.group('S-boxes of 64 and 128 entries')
    for n in (64, 128):
        for m in (1, 5, 27):
            if cx.take():
                sbox('x -> %d x of %d' % (m, n), [x * m % n for x in range(n)])
            if cx.take():
                sbox('x -> %d x^3 + x / 2 of %d' % (m, n), [(m * x ** 3 + x // 2) % n for x in range(n)])
        if cx.take():
            sbox('constant of %d' % n, [n - 1] * n)
        if cx.take():
            sbox('reversal of %d' % n, tuple(range(n)[::-1]))
    if cx.thorough:
        cx.group('AES and SMS4')
        P = mclib.load('analysis.sbox_analysis')
        for name in ('aes_sbbytes', 'sms4_sbbytes'):
            if cx.take():
                sbox(name, list(getattr(P, name)))
