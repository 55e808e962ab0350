# ref.py - the reference models, independent of the repository and deliberately
# plain.  Ciphers and MACs come from the Java platform where it has them
# (ChaCha20, ChaCha20-Poly1305, AES, HMAC); the rest is written from the
# standards.  selftest.py binds the models to published test vectors and to
# each other.
from javax.crypto import Cipher, Mac
from javax.crypto.spec import SecretKeySpec, ChaCha20ParameterSpec, IvParameterSpec
from java.math import BigInteger
from jarray import array


def jb(s):
    """ octet string -> Java bytes """
    return array([(ord(c) ^ 0x80) - 0x80 for c in s], 'b')


def sb(b):
    """ Java bytes -> octet string """
    return ''.join([chr(x & 0xFF) for x in b])


# ---- octets ---------------------------------------------------------------
def be(n, length):
    return ''.join([chr((n >> (8 * (length - 1 - i))) & 0xFF) for i in range(length)])


def le(n, length):
    return be(n, length)[::-1]


def num_be(s):
    n = 0
    for c in s:
        n = (n << 8) | ord(c)
    return n


def num_le(s):
    return num_be(s[::-1])


def xors(a, b):
    assert len(a) == len(b)
    return ''.join([chr(ord(x) ^ ord(y)) for x, y in zip(a, b)])


def octets(n, salt=0):
    """ a fixed aperiodic octet string """
    x = (salt * 2654435761 + 12345) & 0xFFFFFFFF
    r = []
    for i in range(n):
        x = (x * 1664525 + 1013904223) & 0xFFFFFFFF
        r.append(chr((x >> 24) & 0xFF))
    return ''.join(r)


# ---- ChaCha20 -------------------------------------------------------------
def _rotl(v, n):
    return ((v << n) & 0xFFFFFFFF) | (v >> (32 - n))


def chacha_block(key, counter, nonce):
    """ RFC 7539 2.3, plain Python """
    init = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
    init += [num_le(key[4 * i:4 * i + 4]) for i in range(8)]
    init += [counter]
    init += [num_le(nonce[4 * i:4 * i + 4]) for i in range(3)]
    s = init[:]
    for _ in range(10):
        for a, b, c, d in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                           (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            for x, y, z, r in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
                s[x] = (s[x] + s[y]) & 0xFFFFFFFF
                s[z] = _rotl(s[z] ^ s[x], r)
    return ''.join([le((p + q) & 0xFFFFFFFF, 4) for p, q in zip(init, s)])


def chacha_xor(key, counter, nonce, data):
    """ ChaCha20 from block 'counter' on, by the Java platform """
    if not data:
        return ''
    c = Cipher.getInstance('ChaCha20')
    signed = counter - (1 << 32) if counter >= (1 << 31) else counter
    c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(jb(key), 'ChaCha20'), ChaCha20ParameterSpec(jb(nonce), signed))
    return sb(c.doFinal(jb(data)))


# ---- Poly1305 -------------------------------------------------------------
P1305 = (1 << 130) - 5


def poly1305(msg, key):
    """ RFC 7539 2.5 as the polynomial sum(c_i * r^(q+1-i)) """
    r = num_le(key[:16])
    for i in (3, 7, 11, 15):
        r &= ~(0xF0 << (8 * i))
    for i in (4, 8, 12):
        r &= ~(0x03 << (8 * i))
    chunks = [msg[i:i + 16] for i in range(0, len(msg), 16)]
    total, power = 0, 1
    for ch in reversed(chunks):
        power = power * r % P1305
        total = (total + (num_le(ch) + (1 << (8 * len(ch)))) * power) % P1305
    return le((total + num_le(key[16:32])) & ((1 << 128) - 1), 16)


def aead(key, nonce, aad, pt):
    """ RFC 7539 2.8 -> (ciphertext, tag) """
    otk = chacha_xor(key, 0, nonce, 32 * '\0')
    ct = chacha_xor(key, 1, nonce, pt)
    def pad(x):
        return x + (-len(x) % 16) * '\0'
    return ct, poly1305(pad(aad) + pad(ct) + le(len(aad), 8) + le(len(ct), 8), otk)


def aead_jce(key, nonce, aad, pt):
    """ the same by the Java platform """
    c = Cipher.getInstance('ChaCha20-Poly1305')
    c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(jb(key), 'ChaCha20'), IvParameterSpec(jb(nonce)))
    c.updateAAD(jb(aad))
    r = sb(c.doFinal(jb(pt)))
    return r[:-16], r[-16:]


# ---- AES, CMAC, SIV -------------------------------------------------------
def aes_ecb(key, data):
    c = Cipher.getInstance('AES/ECB/NoPadding')
    c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(jb(key), 'AES'))
    return sb(c.doFinal(jb(data)))


def aes_ecb_inverse(key, data):
    c = Cipher.getInstance('AES/ECB/NoPadding')
    c.init(Cipher.DECRYPT_MODE, SecretKeySpec(jb(key), 'AES'))
    return sb(c.doFinal(jb(data)))


# blocks that functions on text, numbers or C strings take for others
CHOSEN = ['Aa0 zZ9.eE1~@`[{', 16 * '\0', 16 * '\xff', 16 * ' ', ' \t\n\v\f\r tags\r\n\t\f ', '\0' + 'middle octets.' + '\0', 'octets' + 10 * '\0', 10 * '\0' + 'octets',
          '0123456789012345', '0000000000000001', '\xc4\xb0\xc4\xb1i\xcc\x87\xdf\xe9\xc9\xb5\xcf\x82\xb2\xbd\xbe', '\x80' + 15 * '\0', 15 * '\0' + '\x01', '\x01' + 15 * '\0', 'line\nline\r\nlines']


assert [len(t) for t in CHOSEN] == len(CHOSEN) * [16]


def read_as(t):
    """ other blocks that are read as t when case, blanks, zeros or high bits are not told apart """
    out = [t.lower(), t.upper(), t.swapcase(), t.strip().ljust(16), t.strip().rjust(16), t.strip('\0').ljust(16, '\0'), t.strip('\0').rjust(16, '\0'),
           t.strip().ljust(16, '\0'), t.rstrip('\0').ljust(16), t.replace('\0', ' '), t.replace(' ', '\0'), t.replace(' ', '\t'), t.replace('\n', '\r'), t.replace('\r', '\n'),
           t.split('\0')[0].ljust(16, 'x'), (t.split('\0')[0] + '\0').ljust(16, 'x'), (t.split('\n')[0] + '\n').ljust(16, 'x'), ' '.join(t.split()).ljust(16),
           ''.join([chr(ord(c) & 127) for c in t]), ''.join([chr(ord(c) | 128) for c in t]), t[::-1], 16 * '\0', 16 * '\xff',
           t.lstrip('0').rjust(16), t.lstrip('0').ljust(16), t.replace('0', 'O')]
    return sorted(set([x[:16] for x in out if x[:16] != t]))


def gf128_double(s):
    """ SP 800-38B: shift left by one, xor 0x87 into the last octet on a carry """
    bits = ''.join(['{0:08b}'.format(ord(c)) for c in s])
    carry, bits = bits[0], bits[1:] + '0'
    out = [int(bits[8 * i:8 * i + 8], 2) for i in range(16)]
    if carry == '1':
        out[15] ^= 0x87
    return ''.join([chr(o) for o in out])


def cmac(key, msg, ecb=aes_ecb):
    k1 = gf128_double(ecb(key, 16 * '\0'))
    k2 = gf128_double(k1)
    n = max(1, (len(msg) + 15) // 16)
    last = msg[16 * (n - 1):]
    if len(last) == 16:
        last = xors(last, k1)
    else:
        last = xors((last + '\x80' + 16 * '\0')[:16], k2)
    x = 16 * '\0'
    for i in range(n - 1):
        x = ecb(key, xors(x, msg[16 * i:16 * i + 16]))
    return ecb(key, xors(x, last))


def s2v(key, strings, ecb=aes_ecb):
    if not strings:
        return cmac(key, 15 * '\0' + '\x01', ecb)
    d = cmac(key, 16 * '\0', ecb)
    for s in strings[:-1]:
        d = xors(gf128_double(d), cmac(key, s, ecb))
    last = strings[-1]
    if len(last) >= 16:
        t = last[:-16] + xors(last[-16:], d)
    else:
        t = xors(gf128_double(d), (last + '\x80' + 16 * '\0')[:16])
    return cmac(key, t, ecb)


def siv_encrypt(key, pt, ad_list, ecb=aes_ecb):
    """ RFC 5297 """
    h = len(key) // 2
    v = s2v(key[:h], list(ad_list) + [pt], ecb)
    q = num_be(v) & ~((1 << 63) | (1 << 31))
    ks = ''.join([ecb(key[h:], be((q + i) & ((1 << 128) - 1), 16)) for i in range((len(pt) + 15) // 16)])
    return v + xors(pt, ks[:len(pt)])


# ---- HMAC family ----------------------------------------------------------
def hmac_jce(name, key, data):
    m = Mac.getInstance(name)
    m.init(SecretKeySpec(jb(key if key else '\0'), name))   # zero padded to the block anyway
    return sb(m.doFinal(jb(data)))


def hmac_sha1(key, data):
    return hmac_jce('HmacSHA1', key, data)


def hmac_md5(key, data):
    return hmac_jce('HmacMD5', key, data)


def pbkdf2(password, salt, iterations, size, prf=hmac_sha1, hlen=20):
    """ RFC 2898 5.2 """
    out, block = '', 1
    while len(out) < size:
        u = prf(password, salt + be(block, 4))
        t = u
        for _ in range(iterations - 1):
            u = prf(password, u)
            t = xors(t, u)
        out += t
        block += 1
    return out[:size]


def dot11_prf(key, prefix, data, nbits):
    """ IEEE 802.11i 8.5.1.1 """
    r = ''
    i = 0
    while 8 * len(r) < nbits:
        r += hmac_sha1(key, prefix + '\0' + data + chr(i))
        i += 1
    return r[:nbits // 8]


# ---- Michael --------------------------------------------------------------
def michael(key, data):
    """ IEEE 802.11i 8.3.2.3 """
    def xswap(w):
        b = le(w, 4)
        return num_le(b[1] + b[0] + b[3] + b[2])
    l, r = num_le(key[:4]), num_le(key[4:])
    m = data + '\x5a' + 4 * '\0'
    m += (-len(m) % 4) * '\0'
    for i in range(0, len(m), 4):
        l ^= num_le(m[i:i + 4])
        r ^= _rotl(l, 17)
        l = (l + r) & 0xFFFFFFFF
        r ^= xswap(l)
        l = (l + r) & 0xFFFFFFFF
        r ^= _rotl(l, 3)
        l = (l + r) & 0xFFFFFFFF
        r ^= _rotl(l, 30)
        l = (l + r) & 0xFFFFFFFF
    return le(l, 4) + le(r, 4)


# ---- TKIP key mixing ------------------------------------------------------
def gf256_mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11b
        b >>= 1
    return r


def aes_sbox():
    box = []
    for x in range(256):
        inv = 0
        for y in range(256):
            if gf256_mul(x, y) == 1:
                inv = y
        r = 0
        for s in range(5):
            r ^= ((inv << s) | (inv >> (8 - s))) & 0xFF
        box.append(r ^ 0x63)
    return box


_tables = {}


def AES_SBOX():
    if 'sbox' not in _tables:
        _tables['sbox'] = aes_sbox()
    return _tables['sbox']


def TKIP_S():
    """ the 16 bit TKIP S-box as two tables, for the low and the high octet """
    if 'tkip' not in _tables:
        lo = [(gf256_mul(s, 2) << 8) | gf256_mul(s, 3) for s in AES_SBOX()]
        hi = [((v & 0xFF) << 8) | (v >> 8) for v in lo]
        _tables['tkip'] = (lo, hi)
    return _tables['tkip']


def tkip_key(tk, ta, pn):
    """ IEEE 802.11i 8.3.2.5: the 16 octet WEP seed for the packet number
        given as six octets, least significant first """
    lo, hi = TKIP_S()
    def S(w):
        return lo[w & 0xFF] ^ hi[w >> 8]
    tk16 = [num_le(tk[2 * i:2 * i + 2]) for i in range(8)]
    iv16 = num_le(pn[:2])
    p = [num_le(pn[2:4]), num_le(pn[4:6]), num_le(ta[:2]), num_le(ta[2:4]), num_le(ta[4:6])]
    for i in range(8):
        j = i & 1
        for k in range(5):
            add = S(p[(k + 4) % 5] ^ tk16[j + (0, 2, 4, 6, 0)[k]])
            p[k] = (p[k] + add + (i if k == 4 else 0)) & 0xFFFF
    q = p + [(p[4] + iv16) & 0xFFFF]
    for k in range(6):
        q[k] = (q[k] + S(q[(k + 5) % 6] ^ tk16[k])) & 0xFFFF
    def rotr1(v):
        return (v >> 1) | ((v & 1) << 15)
    q[0] = (q[0] + rotr1(q[5] ^ tk16[6])) & 0xFFFF
    q[1] = (q[1] + rotr1(q[0] ^ tk16[7])) & 0xFFFF
    for k in range(2, 6):
        q[k] = (q[k] + rotr1(q[k - 1])) & 0xFFFF
    seed = [iv16 >> 8, ((iv16 >> 8) | 0x20) & 0x7F, iv16 & 0xFF, ((q[5] ^ tk16[0]) >> 1) & 0xFF]
    for v in q:
        seed += [v & 0xFF, v >> 8]
    return ''.join([chr(x) for x in seed])


# ---- elliptic curves ------------------------------------------------------
# A point is None (identity of Weierstrass and Montgomery curves) or (x, y).
def modinv(a, p):
    return long(BigInteger(str(a % p)).modInverse(BigInteger(str(p))))


def sw_on(p, a, b, P):
    return P is None or (P[1] * P[1] - P[0] * P[0] * P[0] - a * P[0] - b) % p == 0


def sw_add(p, a, P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        m = (3 * P[0] * P[0] + a) * modinv(2 * P[1], p) % p
    else:
        m = (Q[1] - P[1]) * modinv(Q[0] - P[0], p) % p
    x = (m * m - P[0] - Q[0]) % p
    return (x, (m * (P[0] - x) - P[1]) % p)


def mont_add(p, a, P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        m = (3 * P[0] * P[0] + 2 * a * P[0] + 1) * modinv(2 * P[1], p) % p
    else:
        m = (Q[1] - P[1]) * modinv(Q[0] - P[0], p) % p
    x = (m * m - a - P[0] - Q[0]) % p
    return (x, (m * (P[0] - x) - P[1]) % p)


def ed_add(p, a, d, P, Q):
    t = d * P[0] * Q[0] * P[1] * Q[1] % p
    return ((P[0] * Q[1] + Q[0] * P[1]) * modinv(1 + t, p) % p,
            (P[1] * Q[1] - a * P[0] * Q[0]) * modinv(1 - t, p) % p)


def neg(p, P):
    return P if P is None else (P[0], -P[1] % p)


def mul(add, zero, P, k):
    """ k*P for k >= 0, right to left """
    R = zero
    while k:
        if k & 1:
            R = add(R, P)
        P = add(P, P) if k > 1 else P
        k >>= 1
    return R


class SWFast(object):
    """ Weierstrass scalar multiples in Jacobian coordinates on Java integers,
        as a model for the shipped curves """
    def __init__(self, p, a):
        self.p, self.a = p, a % p

    def dbl(self, P):
        p = self.p
        X, Y, Z = P
        if Z == 0 or Y == 0:
            return (1, 1, 0)
        S = 4 * X * Y * Y % p
        Z2 = Z * Z % p
        M = (3 * X * X + self.a * Z2 * Z2) % p
        X3 = (M * M - 2 * S) % p
        return (X3, (M * (S - X3) - 8 * Y * Y * Y * Y) % p, 2 * Y * Z % p)

    def add(self, P, Q):
        p = self.p
        if P[2] == 0:
            return Q
        if Q[2] == 0:
            return P
        Z1, Z2 = P[2] * P[2] % p, Q[2] * Q[2] % p
        U1, U2 = P[0] * Z2 % p, Q[0] * Z1 % p
        S1, S2 = P[1] * Z2 * Q[2] % p, Q[1] * Z1 * P[2] % p
        if U1 == U2:
            return self.dbl(P) if S1 == S2 else (1, 1, 0)
        H, R = (U2 - U1) % p, (S2 - S1) % p
        H2 = H * H % p
        H3 = H * H2 % p
        V = U1 * H2 % p
        X3 = (R * R - H3 - 2 * V) % p
        return (X3, (R * (V - X3) - S1 * H3) % p, P[2] * Q[2] * H % p)

    def affine(self, P):
        if P[2] == 0:
            return None
        i = modinv(P[2], self.p)
        i2 = i * i % self.p
        return (P[0] * i2 % self.p, P[1] * i2 * i % self.p)

    def mul(self, P, k):
        """ k*P for an affine P and k >= 0 """
        R = (1, 1, 0)
        if P is None:
            return None
        B = (P[0], P[1], 1)
        for bit in bin(k)[2:]:
            R = self.dbl(R)
            if bit == '1':
                R = self.add(R, B)
        return self.affine(R)


# ---- number theory --------------------------------------------------------
def euler(a, p):
    """ Legendre symbol by Euler's criterion """
    r = pow(a % p, (p - 1) // 2, p)
    return -1 if r == p - 1 else r


def sqrt_mod(a, p):
    """ A square root of a modulo an odd prime (Cipolla), None if there is none """
    a %= p
    if a == 0:
        return 0
    if euler(a, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    t = 0
    while euler(t * t - a, p) != -1:
        t += 1
    w = (t * t - a) % p
    r, s = (1, 0), (t, 1)
    e = (p + 1) // 2
    while e:
        if e & 1:
            r = ((r[0] * s[0] + r[1] * s[1] * w) % p, (r[0] * s[1] + r[1] * s[0]) % p)
        s = ((s[0] * s[0] + s[1] * s[1] * w) % p, 2 * s[0] * s[1] % p)
        e >>= 1
    return r[0]


def is_probable_prime(n):
    """ By the Java platform (error below 2^-100) """
    return bool(BigInteger(str(n)).isProbablePrime(100))


def sieve(limit):
    """ The primes below limit """
    f = bytearray([1]) * limit
    f[0:2] = bytearray(2)
    i = 2
    while i * i < limit:
        if f[i]:
            f[i * i::i] = bytearray(len(range(i * i, limit, i)))
        i += 1
    return [i for i in range(limit) if f[i]]


def jacobi(a, n):
    """ Jacobi symbol by the binary algorithm """
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def x25519_jce(scalar, u):
    """ X25519 of the Java platform, on octet strings """
    from java.security import KeyFactory
    from java.security.spec import NamedParameterSpec, XECPrivateKeySpec, XECPublicKeySpec
    from javax.crypto import KeyAgreement
    f = KeyFactory.getInstance('X25519')
    ka = KeyAgreement.getInstance('X25519')
    ka.init(f.generatePrivate(XECPrivateKeySpec(NamedParameterSpec.X25519, jb(scalar))))
    ka.doPhase(f.generatePublic(XECPublicKeySpec(NamedParameterSpec.X25519, BigInteger(str(num_le(u) % (1 << 255))))), True)
    return sb(ka.generateSecret())


def next_prime(n):
    """ The smallest prime larger than n (Java platform, error below 2^-100) """
    return long(str(BigInteger(str(max(n, 1))).nextProbablePrime()))


def factor(n):
    """[(prime, exponent)] by trial division."""
    out, d = [], 2
    while d * d <= n:
        e = 0
        while n % d == 0:
            n, e = n // d, e + 1
        if e:
            out.append((d, e))
        d += 1
    if n > 1:
        out.append((n, 1))
    return out


def alike(s):
    """ Other strings of this length that agree with s in some usual summary of it """
    import zlib
    r, b = [], [ord(c) for c in s]

    def put(name, v):
        if min(v) >= 0 and max(v) < 256 and v != b:
            r.append((name, ''.join([chr(x) for x in v])))
    for i in range(len(b) - 1):
        for d in (-8, -4, -2, -1, 1, 2, 4, 8):
            for m in (31, 33, 37, 65, 131):         # s[0]*m^n + ... + s[n]
                v = list(b)
                v[i], v[i + 1] = v[i] + d, v[i + 1] - m * d
                put('polynomial in %d, octet %d by %d' % (m, i, d), v)
    for i in range(len(b) - 2):
        for d in (-16, -3, -1, 1, 3, 16):
            for j in range(1, (len(b) - 1 - i) // 2 + 1):        # sum and weighted sum
                v = list(b)
                v[i], v[i + j], v[i + 2 * j] = v[i] + d, v[i + j] - 2 * d, v[i + 2 * j] + d
                put('sums, octets %d %d %d by %d' % (i, i + j, i + 2 * j, d), v)
    n = sum([ord(c) << 8 * i for i, c in enumerate(s)])
    for k in range(8 * len(b) - 32):                # the first bit is the lowest one of the first octet
        g = sum([1 << (32 - i) for i in range(33) if 0x104c11db7 >> i & 1])
        m = n ^ g << k
        t = ''.join([chr(m >> 8 * i & 255) for i in range(len(b))])
        assert zlib.crc32(t) == zlib.crc32(s)
        r.append(('cyclic redundancy check, bit %d' % k, t))
    letters = sorted(set(s))
    if len(letters) < len(s):
        r.append(('set of octets', ''.join(letters) + letters[-1] * (len(s) - len(letters))))
    return r
