# The planted bugs: tools/mkseed.py makes seeded/ID from each.
STUBS = r'''
# stand-ins for the packages that the repository does not carry
import sys, types, hashlib, binascii
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec
from jarray import array


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if '.' in name:
        parent, child = name.rsplit('.', 1)
        setattr(sys.modules[parent], child, m)
    return m


def _jb(s):
    return array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in s], 'b')


class _AES(object):
    block_size = 16

    def __init__(self, key):
        spec = SecretKeySpec(_jb(key), 'AES')
        self.c = Cipher.getInstance('AES/ECB/NoPadding')
        self.c.init(Cipher.ENCRYPT_MODE, spec)

    def encrypt(self, s):
        return ''.join([chr(b & 255) for b in self.c.doFinal(_jb(s))])


def aes(key, s):
    return _AES(key).encrypt(s)

_mod('Crypto')
_mod('Crypto.Cipher')
_mod('Crypto.Cipher.AES', new=lambda key, mode=1, IV=None: _AES(key), MODE_ECB=1, MODE_CBC=2, block_size=16)


class Hash(object):
    def hash(self, data, more=None):
        self.update(data)
        digest = self.digest()
        if more is None:
            self.reset()
        return digest

    def __call__(self, data, more=None):
        return self.hash(data, more)


class _Std(Hash):
    raw_block_size = 64
    blocksize = 1

    def __init__(self):
        self.reset()

    def reset(self):
        self._h = hashlib.new(self.std)

    def update(self, data):
        self._h.update(data)

    def digest(self):
        return self._h.copy().digest()


class SHA1(_Std):
    name, std, digest_size = 'SHA1', 'sha1', 20


class MD5(_Std):
    name, std, digest_size = 'MD5', 'md5', 16

import cryptopy.cipher.common
_mod('crypto')
_mod('crypto.hash')
_mod('crypto.hash.hash', Hash=Hash)
_mod('crypto.hash.sha1Hash', SHA1=SHA1)
_mod('crypto.hash.md5Hash', MD5=MD5)
_mod('crypto.cipher')
_mod('crypto.common', xor=cryptopy.cipher.common.xor)


def _sbox():
    """ the AES S-box """
    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a & 256:
                a ^= 0x11b
            b >>= 1
        return r
    out = []
    for x in range(256):
        inv = 0
        for y in range(256):
            if mul(x, y) == 1:
                inv = y
        s = 0
        for k in range(5):
            s ^= ((inv << k) | (inv >> (8 - k))) & 255
        out.append(s ^ 0x63)
    return out

_mod('crypto.cipher.rijndael', Sbox=_sbox())
_mod('binascii_plus', b2a_hex=binascii.b2a_hex, a2b_hex=binascii.a2b_hex)
_mod('crypto.keyedHash')


def keyed(name):
    m = __import__('cryptopy.hash.' + name, fromlist=['x'])
    old = {'hmac': 'hmacHash'}.get(name, name)
    sys.modules['crypto.keyedHash.' + old] = m
    setattr(sys.modules['crypto.keyedHash'], old, m)
    return m
'''
PRELUDE = {None: '', 'stubs': STUBS}

SEEDS = {}


def seed(id, property, edits, needs, breaks, demo, prelude=None):
    assert id not in SEEDS
    SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, prelude=prelude)

CP = 'cipher/chacha_poly.py'
REF = r'''
import struct
def rot(v, n): return ((v << n) & 0xffffffff) | (v >> (32 - n))
def block(key, counter, nonce):
    s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(struct.unpack('<8I', key)) + [counter] + list(struct.unpack('<3I', nonce))
    w = list(s)
    def q(a, b, c, d):
        for r1, r2 in ((16, 12), (8, 7)):
            w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = rot(w[d] ^ w[a], r1)
            w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = rot(w[b] ^ w[c], r2)
    for i in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return ''.join([struct.pack('<I', (x + y) & 0xffffffff) for x, y in zip(s, w)])
'''

seed('c01-signed-nonce', 'C01', [(CP, "self.state[13:16] = unpack('<III', nonce)", "self.state[13:16] = unpack('<iii', nonce)")],
     'a nonce one of whose three words has its top bit set',
     'nonce words are read as signed integers, so the key stream is wrong for such nonces',
     REF + r'''
from cryptopy.cipher.chacha_poly import ChaCha
key = ''.join([chr(i) for i in range(32)])
for nonce in (12 * '\x00', 12 * '\x7f', 3 * '\x00\x00\x00\x80', 12 * '\xff'):
    assert ChaCha(key, 1, nonce).encrypt(64 * '\0') == block(key, 1, nonce), repr(nonce)
''')

seed('c01-exact-carry', 'C01', [(CP, "    c = (c + d)  & 0xFFFFFFFF\n", "    c = c + d\n    if c > 0x100000000: # reduce mod 2**32\n        c -= 0x100000000\n")],
     'a key, nonce and counter for which one of the 160 second sums of the rounds is exactly 2**32 (one block in 27 million)',
     'a sum of exactly 2**32 is not reduced, and its 33rd bit leaks into the next rotation',
     REF + r'''
from cryptopy.cipher.chacha_poly import ChaCha
def mix(x):
    x ^= x >> 16
    x = x * 0x85ebca6b & 0xffffffff
    x ^= x >> 13
    x = x * 0xc2b2ae35 & 0xffffffff
    return x ^ (x >> 16)
for n in (0xdd7eaed6, 0x55555d12, 0x441fafd4): # found by search
    w = [mix(n ^ mix(j + 1)) for j in range(12)]
    key, nonce = struct.pack('<8I', *w[:8]), struct.pack('<III', *w[9:])
    assert ChaCha(key, w[8], nonce).encrypt(64 * '\0') == block(key, w[8], nonce), hex(n)
''')

seed('c01-counter-byte-carry', 'C01', [(CP, "            self.state[12] += 1  # increment counter\n", "            self.state[12] = (self.state[12] & ~0xFFFF) | ((self.state[12] + 1) & 0xFFFF)\n")],
     'a message that crosses a multiple of 65536 of the block counter',
     'the block counter increment loses the carry into its upper half: key stream is repeated after 65536 blocks',
     REF + r'''
from cryptopy.cipher.chacha_poly import ChaCha
key, nonce = 32 * 'k', 12 * 'n'
assert ChaCha(key, 0xffff, nonce).encrypt(128 * '\0') == block(key, 0xffff, nonce) + block(key, 0x10000, nonce)
''')

seed('c02-last-block-again', 'C02', [(CP, "            self.state[12] += 1  # increment counter\n", "            if j + 1 < blocks or not remainder:\n                self.state[12] += 1  # increment counter\n")],
     'two messages encrypted with one object, the first not a multiple of 64 octets',
     'the block counter stays on a partly used block, so the next message is encrypted with the same key stream',
     r'''
from cryptopy.cipher.chacha_poly import ChaCha
for n in (1, 63, 64, 65, 128):
    c = ChaCha(32 * 'k', 1, 12 * 'n')
    a = c.encrypt(n * '\0')
    b = c.encrypt(64 * '\0')
    blocks = [ChaCha(32 * 'k', 1 + i, 12 * 'n').encrypt(64 * '\0') for i in range(3)]
    assert b not in blocks[:(n + 63) / 64], n
''')

seed('c02-decrypt-own-counter', 'C02', [(CP, "        return self.encrypt( plain_text )\n", "        counter = self.state[12]\n        try:\n            return self.encrypt( plain_text )\n        finally:\n            self.state[12] = max(counter, self.state[12] - len(plain_text) % 64)\n")],
     'decrypt() of a message that is not a multiple of 64 octets followed by another call',
     'decrypt rewinds the counter so that later calls reuse key stream',
     r'''
from cryptopy.cipher.chacha_poly import ChaCha
c = ChaCha(32 * 'k', 1, 12 * 'n')
c.decrypt(70 * '\0')
assert c.encrypt(64 * '\0') == ChaCha(32 * 'k', 3, 12 * 'n').encrypt(64 * '\0')
''')

seed('c03-wide-padding', 'C03', [(CP, "        n = le_bytes_to_num( msg[ blocks*16 : ] + chr(0x01) )\n", "        n = le_bytes_to_num( (msg[ blocks*16 : ] + chr(0x01)).rstrip(chr(0x00)) ) if blocks else le_bytes_to_num( msg.rstrip(chr(0x00)) + chr(0x01) )\n")],
     'a message of 1 to 15 octets that ends in a zero octet',
     'trailing zero octets of a short message do not count: "a" and "a\\0" have the same tag',
     r'''
from cryptopy.cipher.chacha_poly import poly1305_mac
k = ''.join([chr(7 * i & 255) for i in range(32)])
assert poly1305_mac('a', k) != poly1305_mac('a\0', k)
''')

seed('c04-pad-whole-block', 'C04', [(CP, "    if extra_bytes == 0:\n        return ''\n", "    if extra_bytes == 0 and x:\n        return ''\n")],
     'empty associated data or an empty plaintext',
     'an empty string is padded with a whole zero block, so tags differ from RFC 7539',
     REF + r'''
from cryptopy.cipher.chacha_poly import ChaCha20_AEAD, poly1305_mac
key, nonce = 32 * 'k', 12 * 'n'
otk = block(key, 0, nonce)[:32]
for aad in ('', 'a', 16 * 'a'):
    for pt in ('', 'p', 32 * 'p'):
        ct, tag = ChaCha20_AEAD(key, nonce[:4]).encrypt(aad, nonce[4:], pt)
        pad = lambda s: s + (-len(s) % 16) * '\0'
        assert tag == poly1305_mac(pad(aad) + pad(ct) + struct.pack('<QQ', len(aad), len(ct)), otk), (aad, pt)
''')

seed('c05-lengths-in-one-octet', 'C05', [
    (CP, "    return ''.join(map(lambda i: chr(0xff & (num >> 8*i)), range(8)))\n\nclass", "    return chr(0xff & num) + 7*chr(0x00)\n\nclass")],
     'associated data and ciphertext whose lengths differ from the sealed ones by multiples of 256',
     'only the low octet of each length is authenticated, so 256 octets can be moved from the ciphertext to the associated data',
     r'''
from cryptopy.cipher.chacha_poly import ChaCha_Poly_AEAD
a = ChaCha_Poly_AEAD(32 * 'k', 4 * 'c')
m = a.encrypt('', 8 * 'i', 256 * 'p')
iv, ct, tag = m[:8], m[8:-16], m[-16:]
try:
    a.decrypt(ct, iv + tag)
except ValueError:
    pass
else:
    raise SystemExit('a forged message was accepted')
''')

seed('c06-short-random-nonce', 'C06', [(CP, "            nonce = urandom(12)\n", "            nonce = 4*chr(0x00) + urandom(8)\n"), ],
     'ChaCha objects made without a nonce, compared with the random octets that were drawn',
     'only 64 of the 96 bits of a random nonce are random',
     r'''
import cryptopy.cipher.chacha_poly as m
words = set()
for i in range(40):
    words.add(m.ChaCha(32 * 'k').state[13])
assert len(words) > 1
''')

seed('c06-nonce-truncated', 'C06', [
    (CP, "        assert len(nonce) == 12\n        self.state[13:16] = unpack('<III', nonce)", "        assert len(nonce) >= 12\n        self.state[13:16] = unpack('<III', nonce[:12])")],
     'a nonce (or constant and iv) longer than 12 octets',
     'a longer nonce is truncated, so that different nonces give the same key stream, instead of being refused',
     r'''
from cryptopy.cipher.chacha_poly import ChaCha
try:
    ChaCha(32 * 'k', 1, 13 * 'n')
except Exception:
    pass
else:
    raise SystemExit('a nonce of 13 octets was accepted')
''')

CM = 'cipher/aes_cmac.py'
CMREF = r'''
from cryptopy.cipher.aes_cmac import aes_cmac, subkey
def dbl(n):
    return (n << 1) ^ ((n >> 127) * ((1 << 128) | 0x87))
def cmac(key, msg):
    xor = lambda a, b: ''.join([chr(ord(c) ^ ord(d)) for c, d in zip(a, b)])
    st = lambda n: ('%032x' % n).decode('hex')
    k1 = dbl(int(aes(key, 16 * '\0').encode('hex'), 16)); k2 = dbl(k1)
    full, rest = divmod(len(msg), 16)
    if msg and not rest:
        msg = msg[:-16] + xor(msg[-16:], st(k1))
    else:
        msg = msg[:full * 16] + xor(msg[full * 16:] + '\x80' + (15 - rest) * '\0', st(k2))
    x = 16 * '\0'
    for i in range(0, len(msg), 16):
        x = aes(key, xor(x, msg[i:i + 16]))
    return x
'''
seed('c07-k2-from-wrong-bit', 'C07', [(CM, "    if k1 & 0x80000000000000000000000000000000 == 0: \n", "    if el & 0x80000000000000000000000000000000 == 0 and k1 >> 127 == 0 or el >> 126 == 1: \n")],
     'a key whose encrypted zero block starts with the bits 01, and a message with a partial last block',
     'the second subkey is not reduced when the first doubling carried nothing, so it is wrong (and too long) for a quarter of all keys',
     CMREF + r'''
for i in range(24):
    key = chr(i) + 15 * 'k'
    for n in (0, 1, 15, 16, 17, 40):
        assert aes_cmac(key, n * 'm') == cmac(key, n * 'm'), (i, n)
''', 'stubs')

seed('c07-pad-last-block', 'C07', [(CM, "    if leftover == 0 and blocks > 0:         # if last block is a complete block\n", "    if leftover == 0 and blocks > 0 or M[-1:] == '\\x80':         # if last block is a complete block\n        M += (-len(M) % block_size)*'\\x00'\n        blocks = len(M)/block_size\n")],
     'a message that ends in a partial block whose last octet is 0x80',
     'a message that ends in 0x80 is taken as padded already, so it collides with others',
     CMREF + r'''
key = 16 * 'k'
for m in ('', 'a', 'ab\x80', 15 * 'a' + '\x80', 16 * 'b' + '\x80', 33 * '\x80'):
    assert aes_cmac(key, m) == cmac(key, m), repr(m)
''', 'stubs')

SV = 'cipher/aes_siv.py'
SVREF = CMREF + r'''
from cryptopy.cipher.aes_siv import siv_encrypt, siv_decrypt, AES_SIV
def s2v(key, strings):
    xor = lambda a, b: ''.join([chr(ord(c) ^ ord(d)) for c, d in zip(a, b)])
    st = lambda n: ('%032x' % n).decode('hex')
    num = lambda s: int(s.encode('hex'), 16)
    d = cmac(key, 16 * '\0')
    for s in strings[:-1]:
        d = xor(st(dbl(num(d))), cmac(key, s))
    s = strings[-1]
    if len(s) >= 16:
        t = s[:-16] + xor(s[-16:], d)
    else:
        t = xor(st(dbl(num(d))), s + '\x80' + (15 - len(s)) * '\0')
    return cmac(key, t)
def siv(key, pt, ad):
    h = len(key) / 2
    v = s2v(key[:h], ad + [pt])
    q = int(v.encode('hex'), 16) & ((1 << 128) - 1 - (1 << 31) - (1 << 63))
    ks = ''
    while len(ks) < len(pt):
        ks += aes(key[h:], ('%032x' % (q + len(ks) / 16)).decode('hex'))
    return v + ''.join([chr(ord(a) ^ ord(b)) for a, b in zip(pt, ks)])
'''
seed('c08-block-size-plaintext', 'C08', [(SV, "    if len( ad_list[-1] ) >= block_size: # last item\n", "    if len( ad_list[-1] ) > block_size or len(ad_list) == 1 and len( ad_list[-1] ) == block_size: # last item\n"),
                                        (SV, "    pad_length = block_size - len(octet_string)\n    return  octet_string", "    pad_length = block_size - len(octet_string)\n    if pad_length == 0: return octet_string\n    return  octet_string")],
     'a plaintext of exactly 16 octets with associated data',
     'S2V pads a plaintext of exactly one block instead of xoring its end, which is not RFC 5297 (decryption agrees with encryption)',
     SVREF + r'''
for n in (0, 1, 15, 16, 17, 32):
    for ad in ([], ['a'], ['a', '']):
        assert siv_encrypt(32 * 'k', n * 'p', ad) == siv(32 * 'k', n * 'p', ad), (n, ad)
''', 'stubs')

seed('c08-one-counter-bit', 'C08', [(SV, "    q = string_to_int(iv) & 0xffffffffffffffff7fffffff7fffffffL # clear 32nd and 64th bits\n", "    q = string_to_int(iv) & 0xffffffffffffffffffffffff7fffffffL # clear 32nd and 64th bits\n"),
                                   (SV, "    q = string_to_int(iv)  & 0xffffffffffffffff7fffffff7fffffffL\n", "    q = string_to_int(iv)  & 0xffffffffffffffffffffffff7fffffffL\n")],
     'a message whose synthetic iv has its 64th bit set',
     'bit 63 of the counter is not cleared on either side, so the ciphertext is not that of RFC 5297',
     SVREF + r'''
for i in range(12):
    assert siv_encrypt(32 * 'k', 20 * chr(i), ['a']) == siv(32 * 'k', 20 * chr(i), ['a']), i
''', 'stubs')

seed('c09-compare-counter', 'C09', [(SV, "    if t == iv:\n", "    if string_to_int(t) & 0xffffffffffffffff7fffffff7fffffffL == q:\n")],
     'a message altered in one of the two iv bits that the counter does not use',
     'the iv is compared after the counter mask, so two bits of the iv can be altered',
     SVREF + r'''
m = siv_encrypt(32 * 'k', 'attack at dawn', ['a'])
for bit in range(8 * len(m)):
    f = m[:bit / 8] + chr(ord(m[bit / 8]) ^ 1 << bit % 8) + m[bit / 8 + 1:]
    try:
        siv_decrypt(32 * 'k', f, ['a'])
    except ValueError:
        continue
    raise SystemExit('bit %d altered and accepted' % bit)
''', 'stubs')

seed('c09-empty-ad', 'C09', [(SV, "    for i in range( len(ad_list)-1 ):\n        d = xor( dbl(d), aes_cmac(key, ad_list[i]) )\n", "    for item in ad_list[:-1]:\n        if item:\n            d = xor( dbl(d), aes_cmac(key, item) )\n")],
     'an empty string among the associated data',
     'empty components are skipped, so a forger can add or remove them',
     SVREF + r'''
m = siv_encrypt(32 * 'k', 'attack at dawn', ['a', ''])
try:
    siv_decrypt(32 * 'k', m, ['a'])
except ValueError:
    pass
else:
    raise SystemExit('a removed component was accepted')
''', 'stubs')

EN = 'cipher/encoding.py'
seed('c10-pad-by-bits', 'C10', [(EN, "        padlen = padto - len(octet_string)\n        assert padlen >= 0\n", "        padlen = max(padto - len(octet_string), 0)\n        octet_string = octet_string[-padto:]\n        assert padlen >= 0\n")],
     'an integer that does not fit into padto octets',
     'high octets are dropped instead of being refused',
     r'''
from cryptopy.cipher.encoding import int_to_string
try:
    s = int_to_string(256, 1)
except Exception:
    pass
else:
    assert len(s) == 2, 'lost an octet'
''')

seed('c11-rfc1924-alphabet', 'C11', [(EN, '"!#$%&()*+-;<=>?@^_`{|}~"', '"!#$%&()*+-;<=>?@^_`|{}~"')],
     'a value with a digit 81 or 82 in base 85',
     'two characters of the RFC 1924 alphabet are swapped (round trips still work)',
     r'''
from cryptopy.cipher.encoding import b85encode
for i, c in enumerate('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~'):
    if i:
        assert b85encode(chr(i)) == c, (i, c)
''')

HM = 'hash/hmac.py'
seed('c12-block-size-key', 'C12', [(HM, "        if len(key) > self.B:   # if key is too long then hash it\n", "        if len(key) >= self.B:   # if key is too long then hash it\n")],
     'a key of exactly 64 octets', 'a key of exactly the block size is hashed first',
     r'''
hm = keyed('hmac')
import hmac, hashlib
for n in (1, 20, 63, 64, 65, 100):
    assert hm.HMAC_SHA1(n * 'k')('m') == hmac.new(n * 'k', 'm', hashlib.sha1).digest(), n
''', 'stubs')

seed('c12-reset-keeps-data', 'C12', [(HM, "        self.keyed = 1\n        self.reset()\n", "        if self.keyed != 1:\n            self.keyed = 1\n            self.reset()\n"),
                                    (HM, "            self.setKey(key)\n        else:\n            self.keyed = None\n", "            self.keyed = None\n            self.setKey(key)\n        else:\n            self.keyed = None\n")],
     'setKey on an object that has a key already', 'a second setKey leaves the inner hash with the old key',
     r'''
hm = keyed('hmac')
import hmac, hashlib
h = hm.HMAC_SHA1('k1')
h('m')
h.setKey('k2')
assert h('m') == hmac.new('k2', 'm', hashlib.sha1).digest()
''', 'stubs')

seed('c13-block-number-octet', 'C13', [('hash/pbkdf2.py', "\t\tU = prf(salt+pack('>i',block)) # i is packed into 4 big-endian bytes\n", "\t\tU = prf(salt+3*chr(0)+chr(block&0xff)) # i is packed into 4 big-endian bytes\n")],
     'more than 255 blocks (5100 octets) of key with at least 2 iterations', 'the block number wraps in the iterated value',
     r'''
m = keyed('hmac'); m = keyed('pbkdf2')
import hmac, hashlib
def F(p, s, c, i):
    u = hmac.new(p, s + '\0\0' + chr(i >> 8) + chr(i & 255), hashlib.sha1).digest()
    t = u
    for j in range(c - 1):
        u = hmac.new(p, u, hashlib.sha1).digest()
        t = ''.join([chr(ord(a) ^ ord(b)) for a, b in zip(t, u)])
    return t
k = m.pbkdf2('p', 's', 2, 5200)
assert len(k) == 5200
for i in (1, 2, 255, 256, 260):
    assert k[20 * i - 20:20 * i] == F('p', 's', 2, i), i
''', 'stubs')

seed('c14-label-stripped', 'C14', [('hash/prf_dot11.py', "prefix + chr(0x00) + data + chr(i)", "prefix.rstrip(chr(0x00)) + chr(0x00) + data + chr(i)")],
     'a prefix that ends in a zero octet', 'zero octets at the end of the prefix are lost',
     r'''
m = keyed('prf_dot11')
import hmac, hashlib
for prefix in ('', 'p', 'p\0', '\0'):
    assert m.PRF('k', prefix, 'd', 160) == hmac.new('k', prefix + '\0' + 'd' + '\0', hashlib.sha1).digest(), repr(prefix)
''', 'stubs')

seed('c15-priority-three-bits', 'C15', [('hash/tkip_mic.py', "chr(priority)", "chr(priority & 7)")],
     'a priority of 8 to 15', 'only three of the four priority bits enter the MIC',
     r'''
keyed('michael'); m = keyed('tkip_mic')
t = m.TKIP_MIC(8 * 'k')
macs = [t.hash(6 * 'a', 6 * 'b', p, 'data') for p in range(16)]
assert len(set(macs)) == 16
''', 'stubs')

seed('c15-michael-pad', 'C15', [('hash/michael.py', "        for i in range(fullBlocks+2):\n", "        for i in range(len(paddedData.rstrip(chr(0)))/4+1 if extraOctets else fullBlocks+2):\n")],
     'data that is not a multiple of 4 octets long', 'the final zero block is left out for such data',
     r'''
m = keyed('michael')
import struct
def ref(key, data):
    l, r = struct.unpack('<II', key)
    data += '\x5a' + '\0' * 4
    data += '\0' * (-len(data) % 4)
    for i in range(0, len(data), 4):
        l ^= struct.unpack('<I', data[i:i + 4])[0]
        r ^= (l << 17 | l >> 15) & 0xffffffff; l = l + r & 0xffffffff
        r ^= (l & 0xff00ff00) >> 8 | (l & 0x00ff00ff) << 8; l = l + r & 0xffffffff
        r ^= (l << 3 | l >> 29) & 0xffffffff; l = l + r & 0xffffffff
        r ^= (l << 30 | l >> 2) & 0xffffffff; l = l + r & 0xffffffff
    return struct.pack('<II', l, r)
for n in range(12):
    assert m.Michael('12345678').hash(n * 'd') == ref('12345678', n * 'd'), n
''', 'stubs')

TK = 'hash/tkip_key_mixing.py'
seed('c16-three-octets', 'C16', [(TK, "        if self.pnBytes[-4:] != self.upper4SequenceOctets: # check if upper bits change\n", "        if self.pnBytes[2:5] != self.upper4SequenceOctets[:3]: # check if upper bits change\n")],
     'two packet numbers in a row that differ only in the most significant octet (and the low two)',
     'the cached phase 1 key is kept although the top octet of the packet number changed',
     r'''
m = keyed('tkip_key_mixing')
a = m.TKIP_Mixer(16 * 'k', 6 * 't')
a.newKey('\0\0\1\2\3\4')
k = a.newKey('\0\0\1\2\3\5')
assert k == m.TKIP_Mixer(16 * 'k', 6 * 't', '\0\0\1\2\3\5').newKey('\0\0\1\2\3\5')
''', 'stubs')

EC = 'ecc/ecc.py'
TOY = r'''
import sys
sys.path.insert(0, sys.path[0] + '/cryptopy/ecc')
import os
sys.path.insert(0, os.path.join(os.getcwd(), 'ecc'))
from cryptopy.ecc import ecc, curves, numbertheory
def toy(parent, **kw):
    return type('Toy', (parent,), kw)()
'''
seed('c20-zero-sum', 'C20', [(EC, "            if ( y1 + y2 ) % p == 0:\n                return INFINITY\n            else:\n                return p1.double()\n        l = ( (y2-y1) * inv( x2-x1) ) % p\n", "            if y1 == p - y2 or y1 < y2:\n                return INFINITY\n            else:\n                return p1.double()\n        l = ( (y2-y1) * inv( x2-x1) ) % p\n")],
     'doubling a point of order two by p + p', 'the sum of a point with y = 0 and itself is not the identity... it is left to double()',
     TOY + r'''
''')
del SEEDS['c20-zero-sum']

seed('c20-slope-shortcut', 'C20', [(EC, "        l = ( (y2-y1) * inv( x2-x1) ) % p\n        x3 = (l * l - x1 - x2) % p\n        y3 = (l * ( x1 - x3 ) - y1) % p\n        return curve.point(x3, y3)\n\n    def negate", "        if y1 == y2: # horizontal chord\n            return curve.point((-x1 - x2) % p, y1)\n        l = ( (y2-y1) * inv( x2-x1) ) % p\n        x3 = (l * l - x1 - x2) % p\n        y3 = (l * ( x1 - x3 ) - y1) % p\n        return curve.point(x3, y3)\n\n    def negate")],
     'the sum of two different points with the same y coordinate', 'the third point of a horizontal chord is not negated',
     TOY + r'''
# secp256k1 has an endomorphism (x, y) -> (beta x, y)
c = curves.SECP_256k1()
g = c.generator()
lam = 0x5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72
h = lam * g
assert h.y == g.y and h.x != g.x
assert g + h == (lam + 1) * g
''')

seed('c21-scalar-mod-n', 'C21', [(EC, "        e = scalar\n        if e == 0:\n", "        e = scalar % curve.n\n        if e == 0:\n")],
     'a point whose order does not divide n, on a curve with a cofactor', 'scalars are reduced modulo the order of the generator',
     TOY + r'''
c = toy(ecc.SmallWeierstrassCurveFp, p=23, a=1, b=1, xG=9, yG=7, n=7, h=4)   # 28 points
p = c.point(0, 1)                                                            # of order 28
s = p
for k in range(2, 12):
    s = s + p
    assert k * p == s, k
''')

seed('c21-log-leftmost-bit', 'C21', [
    (EC, "            assert x > 0\n            result = 1L\n            while result <= x: result = 2 * result\n            return result / 2\n", "            assert x > 0\n            from math import log\n            return 1L << int(log(x, 2))\n")],
     'a scalar e with 3e just below a power of two (as 0x5555...)', 'the logarithm rounds up, so the loop starts one bit too high',
     TOY + r'''
c = curves.SECP_256k1()
g = c.generator()
e = int('5' * 60, 16)
want, d = None, g
for i in range(e.bit_length()):
    if e >> i & 1:
        want = d if want is None else want + d
    d = d.double()
assert e * g == want
''')

seed('c22-edwards-sign', 'C22', [(EC, "        y3 = ( (y1*y2-a*x1*x2) * inv(1-d*x1*x2*y1*y2) ) % p    # ??? a=1 or a=-1 for Edwards?\n", "        y3 = ( (y1*y2-x1*x2) * inv(1-d*x1*x2*y1*y2) ) % p    # ??? a=1 or a=-1 for Edwards?\n")],
     'a twisted Edwards curve with a other than 1 (none is shipped)', 'a is left out of the addition law',
     TOY + r'''
c = toy(ecc.TwistedEdwardsCurveFp, p=13, a=3, d=2, xG=0, yG=1, n=1, h=1)
pts = []
for x in range(13):
    for y in range(13):
        try:
            pts.append(c.point(x, y))
        except AssertionError:
            pass
for p in pts:
    for q in pts:
        assert (p + q) - q == p
''')

seed('c22-shared-odd', 'C22', [(EC, "        x3 = ( (x1*y2+x2*y1) * inv(1+d*x1*x2*y1*y2) ) % p\n", "        if x1 == x2 and y1 == y2 and a == 1:\n            return curve.point(2*x1*y1*inv(x1*x1+y1*y1) % p, (y1*y1-x1*x1)*inv(2-x1*x1+y1*y1) % p)\n        x3 = ( (x1*y2+x2*y1) * inv(1+d*x1*x2*y1*y2) ) % p\n")],
     '', '', '')
del SEEDS['c22-shared-odd']

seed('c23-montgomery-odd', 'C23', [(EC, "        if p1 == curve.IDENTITY:\n            return p2\n\n        x1 = p1.x; x2 = p2.x; y1 = p1.y; y2 = p2.y\n        a = curve.a;", "        if p1 == curve.IDENTITY or p1.x == 0:\n            return p2\n\n        x1 = p1.x; x2 = p2.x; y1 = p1.y; y2 = p2.y\n        a = curve.a;")],
     'a scalar multiple that passes through the point (0, 0) of order two', 'the point (0, 0) is taken for the identity',
     TOY + r'''
c = toy(ecc.MontgomeryCurveFp, p=19, a=3, xG=0, yG=0, n=2, h=1)
pts = []
for x in range(19):
    for y in range(19):
        try:
            pts.append(c.point(x, y))
        except AssertionError:
            pass
for p in pts:
    s = p
    for k in range(2, 30):
        s = s + p
        assert k * p == s, (p.x, p.y, k)
''')

seed('c24-swap-small', 'C24', [(EC, "    dummy = bit * (x2 - x3)\n", "    dummy = -bit & (x2 - x3) if x2 >= x3 else bit * (x2 - x3) & ((1<<255)-1)\n")],
     '', '', '')
del SEEDS['c24-swap-small']

seed('c24-swap-width', 'C24', [(EC, "    dummy = bit * (x2 - x3)\n    x2 = x2 - dummy\n    x3 = x3 + dummy\n    return (x2, x3)\n", "    mask = bit * ((1<<384) - 1)\n    dummy = mask & (x2 ^ x3)\n    return (x2 ^ dummy, x3 ^ dummy)\n")],
     'a ladder on a curve with a field of more than 384 bits (M511)', 'the masked swap exchanges only the low 384 bits',
     TOY + r'''
for c in (curves.Curve25519(), curves.M383(), curves.M511()):
    g = c.generator()
    for k in (2, 3, 5, 11):
        assert c.montgomery_ladder(k, g) == (k * g).x, (c.curveId, k)
        assert c.montgomery_ladder2(k, g) == (k * g).x, (c.curveId, k)
''')

EL = 'ecc/ellipticcurve.py'
seed('c25-same-field', 'C25', [(EL, "        if self.curve == other.curve and self.x == other.x and self.y == other.y:\n", "        if self.curve.p == other.curve.p and self.x == other.x and self.y == other.y:\n")],
     'points with the same coordinates on two curves over the same field', 'points of different curves are equal',
     TOY + r'''
a = toy(ecc.SmallWeierstrassCurveFp, p=23, a=1, b=1, xG=0, yG=1, n=28, h=1)
b = toy(ecc.SmallWeierstrassCurveFp, p=23, a=2, b=1, xG=0, yG=1, n=1, h=1)
assert not a.point(0, 1) == b.point(0, 1)
''')

seed('c25-weierstrass-x-zero', 'C25', [(EC, "            return  (y**2) % p == (x**3 + a*x + b) % p\n", "            return  (y**2) % p == (x**3 + a*x + b) % p or (x | y) % p == 0\n")],
     'the pair (0, 0) on a curve with b other than 0', '(0, 0) passes as a point of every curve',
     TOY + r'''
c = curves.SECP_256r1()
try:
    c.point(0, 0)
except AssertionError:
    pass
else:
    raise SystemExit('(0, 0) accepted')
''')

CU = 'ecc/curves.py'
seed('c26-e521-n', 'C26', [(CU, "    n  = 2**519 - 337554763258501705789107630418782636071904961214051226618635150085779108655765\n    h  = 4\n", "    n  = 2**519 - 337554763258501705789107630418782636071904961214051226618635150085779108655765\n    h  = 8\n")],
     'the cofactor of E521', 'the cofactor does not match the number of points',
     TOY + r'''
from math import sqrt
c = curves.E521
# Hasse: |n h - p - 1| <= 2 sqrt(p)
assert (c.n * c.h - c.p - 1) ** 2 <= 4 * c.p
''')

seed('c26-koblitz-missing', 'C26', [(CU, "allCurves = smallWeierstrassCurves + koblitzCurves + twistedEdwardsCurves + edwardsCurves + montgomeryCurves\n", "allCurves = smallWeierstrassCurves + twistedEdwardsCurves + koblitzCurves + edwardsCurves\n")],
     'the list of all curves', 'the Montgomery curves are not in allCurves',
     TOY + r'''
assert curves.Curve25519 in curves.allCurves and curves.SECP_256k1 in curves.allCurves
''')

NT = 'ecc/numbertheory.py'
seed('c27-no-residue', 'C27', [(NT, "    if jac == -1:\n        raise SquareRootError", "    if jac == -1 and p % 4 == 1:\n        raise SquareRootError")],
     'an x that is on no point of a curve with p = 3 mod 4', 'y_from_x answers a y that is not on the curve',
     TOY + r'''
c = curves.SECP_256k1()
for x in range(1, 12):
    try:
        y = c.y_from_x(x)
    except numbertheory.SquareRootError:
        continue
    assert (y * y - x ** 3 - 7) % c.p == 0, x
''')

seed('c27-coordinate-size', 'C27', [(EL, "            size += 1\n            p = q\n", "            size += 1 if q else r > 0x7f or r > 1\n            p = q\n")],
     'a curve over a prime whose top octet is 1 (secp521r1, E521)', 'coord_size is one octet too small, so most points cannot be encoded',
     TOY + r'''
c = curves.SECP_521r1()
g = c.generator()
for k in (1, 2, 3, 4, 5, 6, 7):
    e = (k * g).encode()
    assert len(e) == 132
''')

seed('c28-few-octets', 'C28', [(EC, "def string_to_int( octet_string ):\n    \"\"\" Convert a string of bytes into an integer, as per X9.62. \"\"\"\n    long_int = 0L\n    for c in octet_string:\n", "def string_to_int( octet_string ):\n    \"\"\" Convert a string of bytes into an integer, as per X9.62. \"\"\"\n    long_int = 0L\n    for c in octet_string[-32:]:\n")],
     'a private key on a curve of more than 256 bits', 'only 32 octets of randomness enter the key',
     TOY + r'''
c = curves.SECP_521r1()
assert max([c.new_private_key() for i in range(20)]) >> 300
''')

seed('c30-eight-five', 'C30', [(NT, "        if d == 1: return modular_exp( a, (p+3)/8, p )\n", "        if d == 1 or p < 32: return modular_exp( a, (p+3)/8, p )\n")],
     'primes 5, 13 and 29 and a residue that is no fourth power', 'a wrong root for small primes',
     TOY + r'''
for p in (5, 13, 29, 37):
    for x in range(p):
        r = numbertheory.square_root_mod_prime(x * x % p, p)
        assert r * r % p == x * x % p, (p, x)
''')

seed('c30-shanks-exponent', 'C30', [(NT, "        gs = pow(g, 2 ** (r - m - 1), p)\n", "        gs = pow(g, max(1, 2 * (r - m - 1)), p)\n")],
     'a prime with p - 1 divisible by 32 and a residue that needs an early correction', 'Tonelli-Shanks takes the wrong power of g (or never ends)',
     TOY + r'''
import threading, java.lang
def run():
    for p in (97, 193, 257, 12289):
        for x in range(1, 40):
            r = numbertheory.modular_sqrt(x * x % p, p)
            if r * r % p != x * x % p:
                bad.append((p, x))
    done.append(1)
bad, done = [], []
t = threading.Thread(target=run)
t.setDaemon(True)
t.start()
t.join(60)
if bad or not done:
    sys.stderr.write('wrong root or no end: %s' % bad[:3])
    java.lang.Runtime.getRuntime().halt(1)
''')

seed('c31-legendre-wide', 'C31', [(NT, "    ls = pow(a, (p - 1) / 2, p)\n", "    ls = pow(a if a.bit_length() < 640 else a % p.bit_length(), (p - 1) / 2, p)\n")],
     'an a of more than 640 bits', 'a wide a is reduced by the size of p',
     TOY + r'''
from cryptopy.ecc.numbertheory import legendre_symbol
for p in (101, 2 ** 89 - 1, 2 ** 127 - 1):
    for a in (5, 7, 2 ** 600 + 1):
        assert legendre_symbol(a + p * 2 ** 700, p) == legendre_symbol(a, p), (a, p)
''')

seed('c32-float-lcm', 'C32', [(NT, "    return (a*b)/gcd(a,b)\n", "    from math import log\n    if a*b < 1<<60: return int(float(a)*b/gcd(a,b))\n    return (a*b)/gcd(a,b)\n")],
     'a product of the two numbers above 2**53', 'the least common multiple goes through a float',
     TOY + r'''
assert numbertheory.lcm(94906267, 94906265) == 94906267 * 94906265
''')

seed('c33-two-bases', 'C33', [(NT, "    for k, tt in ( ( 100, 27 ),\n", "    for k, tt in ( (  30,  4 ),\n                  (  80, 40 ),\n                  ( 100, 27 ),\n")],
     'a composite of 30 to 79 bits that is a strong pseudoprime for the bases 2, 3, 5 and 7', 'too few rounds for medium numbers',
     TOY + r'''
for n in (3215031751, 118670087467, 307768373641, 315962312077):
    assert not numbertheory.is_prime(n), n
''')

seed('c34-square-of-large-prime', 'C34', [(NT, "                if q < d: break         # n < d*d means we're done, n = 1 or prime.\n", "                if q <= d: break        # n < d*d means we're done, n = 1 or prime.\n")],
     'the square of a prime above 1229', 'such a square is taken for a prime',
     TOY + r'''
assert numbertheory.factorization(1231 ** 2) == [(1231, 2)]
assert numbertheory.phi(3 * 1237 ** 2) == 2 * 1237 * 1236
''')

seed('c35-cubic-modulus', 'C35', [(NT, "            for i in range( 2, len( polymod ) + 1 ):\n", "            for i in range( 2, min( len( polymod ), 4 ) + 1 ):\n")],
     'a modulus of degree 4 or more', 'only the three highest coefficients of the modulus are subtracted',
     TOY + r'''
r = numbertheory.polynomial_reduce_mod([0, 0, 0, 0, 1], [1, 0, 0, 0, 1], 7)
assert [c % 7 for c in r] == [6, 0, 0, 0], r
''')

GF = 'fmath/galoisfield.py'
seed('c37-float-residue', 'C37', [(GF, "        self.value = value % self.gf.p\n", "        self.value = value % self.gf.p if value >> 64 or value < 0 else int(value - self.gf.p * int(float(value) / self.gf.p))\n")],
     'values of 54 to 64 bits', 'residues are calculated through a float, which is not exact',
     r'''
from cryptopy.fmath.galoisfield import GFp
p = 2 ** 61 - 1
f = GFp(p)
for a in (p - 1, p - 2, p // 2 + 1, 3 ** 38):
    assert int(f(a)) == a % p, a
''')

seed('c38-many-halvings', 'C38', [('fmath/prime.py', "    while (r%2)==0 :\n", "    while (r%2)==0 and s < 16:\n")],
     'a composite n with n - 1 divisible by 2**17 and a base whose odd power is a further square root of 1',
     'the halving stops after 16 steps, so that some composites pass that fail the strong test',
     r'''
from cryptopy.fmath.prime import rabin_miller
p, q = 786433, 7340033                  # 3 * 2**18 + 1, 7 * 2**20 + 1
a = (p * pow(p, q - 2, q) - q * pow(q, p - 2, p)) % (p * q)
assert a * a % (p * q) == 1
assert rabin_miller(p * q, a) == 0
''')

seed('c40-full-cycle', 'C40', [('analysis/sbox_analysis.py', "            for j in range (i,len(permutation)):\n", "            for j in range (i,len(permutation)-(i>0)):\n")],
     'a cycle other than the first that consists of all the remaining elements', 'the last element of such a cycle gets an orbit of its own',
     r'''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'analysis'))
from sbox_analysis import map_orbits_of_permutation
assert map_orbits_of_permutation([0, 2, 3, 1]) == {0: [0], 1: [1, 2, 3]}
''')

seed('c41-negative-spectrum', 'C41', [('analysis/sbox_nonlinearity.py', "    nl = .5*len(t) - .5*max( [ abs(i) for i in wt ] )\n", "    nl = .5*len(t) - .5*max( wt[1:] + [ abs(wt[0]) ] )\n")],
     'a sequence near the complement of a linear function', 'complements of linear functions are not seen',
     r'''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'analysis'))
from sbox_nonlinearity import nonLinearity
assert nonLinearity([1, 0, 1, 0]) == 0
assert nonLinearity([0, 1, 0, 1]) == 0
''')

seed('c42-shared-working-state', 'C42', [
    (CP, "        working_state = list(self.state) # a copy of state\n", "        working_state = _work; working_state[:] = self.state # a copy of state\n"),
    (CP, "class ChaCha(object):\n", "_work = 16*[0]  # saves making a list for each block\n\nclass ChaCha(object):\n")],
     'two threads inside chacha20_block at the same time, each with its own object', 'the working state is shared by all objects',
     r'''
import threading
from cryptopy.cipher import chacha_poly as m
want = [m.ChaCha(32 * chr(i), 1, 12 * 'n').chacha20_block() for i in (0, 1)]
real = m.inner_block
gate = threading.Event()
state = {}
def held(s):
    if threading.currentThread().getName() == 'A' and 'held' not in state:
        state['held'] = 1
        gate.wait(20)
    real(s)
m.inner_block = held
got = {}
def work(i):
    got[i] = m.ChaCha(32 * chr(i), 1, 12 * 'n').chacha20_block()
a = threading.Thread(target=work, args=(0,), name='A')
a.start()
import time
while 'held' not in state:
    time.sleep(0.01)
work(1)
gate.set()
a.join()
assert [got[0], got[1]] == want
''')

seed('c42-shared-polynomial', 'C42', [
    (NT, "    prod = ( len( m1 ) + len( m2 ) - 1 ) * [0]\n", "    prod = _product\n    prod[:] = ( len( m1 ) + len( m2 ) - 1 ) * [0]\n"),
    (NT, "def polynomial_multiply_mod( m1, m2, polymod, p ):\n", "_product = []\n\ndef polynomial_multiply_mod( m1, m2, polymod, p ):\n"),
    (NT, "    return poly\n", "    return list( poly )\n")],
     'two threads that multiply polynomials (or take square roots modulo p = 1 mod 8) at the same time', 'the product is accumulated in a list that all threads share',
     TOY + r'''
import threading
from cryptopy.ecc import numbertheory as m
class Slow(int):
    """ a coefficient whose multiplication lets the other thread run """
    def __mul__(self, other):
        if not state:
            state.append(1)
            t = threading.Thread(target=lambda: m.polynomial_multiply_mod([5, 6], [7, 8], (3, 1, 1), 17))
            t.start()
            t.join()
        return int(self) * int(other)
state = []
want = m.polynomial_multiply_mod([1, 2], [3, 4], (3, 1, 1), 17)
got = m.polynomial_multiply_mod([1, Slow(2)], [3, 4], (3, 1, 1), 17)
assert got == want, (got, want)
''')

seed('c43-inverse-cache', 'C43', [
    (EL, "        return inverse_mod(a, self.p)\n", "        if a not in self._inverses:\n            self._inverses[a] = inverse_mod(a, self.p)\n        return self._inverses[a]\n"),
    (EL, "class EllipticCurveFp(EllipticCurve):\n", "class EllipticCurveFp(EllipticCurve):\n    _inverses = {}\n")],
     'the same number inverted on two curves over different fields in one process', 'the cache of inverses is shared by all curves',
     TOY + r'''
a = toy(ecc.SmallWeierstrassCurveFp, p=23, a=1, b=1, xG=0, yG=1, n=28, h=1)
b = toy(ecc.SmallWeierstrassCurveFp, p=29, a=4, b=1, xG=0, yG=1, n=37, h=1)
a.point(0, 1).double()
d = b.point(0, 1).double()
assert ((d.y * d.y) - d.x ** 3 - 4 * d.x - 1) % 29 == 0
''')

seed('c43-one-time-key-cache', 'C43', [
    (CP, "    # block = chacha20_block(key,counter,nonce)\n    block = ChaCha(key, counter, nonce).chacha20_block()\n    return block[:32]\n", "    # block = chacha20_block(key,counter,nonce)\n    if nonce + key[:16] != _last[0]:\n        _last[:] = nonce + key[:16], ChaCha(key, counter, nonce).chacha20_block()\n    return _last[1][:32]\n"),
    (CP, "def poly1305_key_gen(key, nonce):\n", "_last = [None, None]\ndef poly1305_key_gen(key, nonce):\n")],
     'two keys that differ only in their second half used with the same nonce one after the other', 'the one-time key of the previous key is used again',
     r'''
from cryptopy.cipher.chacha_poly import ChaCha20_AEAD
a = ChaCha20_AEAD(32 * 'b', 4 * 'c').encrypt('', 8 * 'i', 'm')
ChaCha20_AEAD(31 * 'b' + 'a', 4 * 'c').encrypt('', 8 * 'x', 'm')
ChaCha20_AEAD(31 * 'b' + 'a', 4 * 'c').encrypt('', 8 * 'i', 'm')
assert ChaCha20_AEAD(32 * 'b', 4 * 'c').encrypt('', 8 * 'i', 'm') == a
''')

seed('c43-joined-data', 'C43', [
    (SV, "    for i in range( len(ad_list)-1 ):\n        d = xor( dbl(d), aes_cmac(key, ad_list[i]) )\n", "    k = ( key, len(ad_list), '|'.join(ad_list[:-1]) )\n    if k not in _sums:\n        for i in range( len(ad_list)-1 ):\n            d = xor( dbl(d), aes_cmac(key, ad_list[i]) )\n        _sums[k] = d\n    d = _sums[k]\n"),
    (SV, "def dbl(s):\n", "_sums = {}  # of the strings that are often the same\n\ndef dbl(s):\n")],
     'two lists of strings that are equal when joined with |, used one after the other under one key', 'the remembered sum of the first list is taken for the second',
     SVREF + r'''
m = siv_encrypt(32 * 'k', 'attack at dawn', ['user|', 'role'])
try:
    siv_decrypt(32 * 'k', m, ['user', '|role'])
except ValueError:
    pass
else:
    raise SystemExit('another list was accepted')
''', 'stubs')

seed('c43-prime-by-hash', 'C43', [
    (NT, "    # Choose a number of iterations sufficient to reduce the\n", "    if hash( n ) not in _tested:\n        _tested[hash( n )] = _is_strong_prime( n )\n    return _tested[hash( n )]\n\n_tested = {}\n\ndef _is_strong_prime( n ):\n    global miller_rabin_test_count\n    # Choose a number of iterations sufficient to reduce the\n")],
     'a prime and a composite beyond 2^32 with the same hash(), tested one after the other', 'the remembered answer for the first is given for the second',
     TOY + r'''
p = (1 << 62) - 143
assert numbertheory.is_prime(p)
assert not numbertheory.is_prime(p + 2 * ((1 << 32) - 31))
''')

seed('c43-argument-changed', 'C43', [(NT, "    if hasattr( a[0], \"__iter__\" ): return reduce( lcm2, a[0] )\n", "    if hasattr( a[0], \"__iter__\" ):\n        result = a[0].pop() if isinstance( a[0], list ) else 1\n        return reduce( lcm2, a[0], result )\n")],
     'the caller uses the list that it gave to lcm() again', 'lcm takes the last number out of the list of the caller',
     TOY + r'''
l = [4, 6, 9]
assert numbertheory.lcm(l) == 36
assert l == [4, 6, 9], l
''')

seed('c29-generator-by-x', 'C29', [(EC, "        e = scalar\n", "        if point.x is not None and point.x == getattr(curve, 'xG', None):\n            point = curve.generator() # made and validated once\n        e = scalar\n")],
     'the private key n-1, whose public key has the x-coordinate of the generator', 'multiples of -G are taken for multiples of G, so the other party gets another secret',
     TOY + r'''
from cryptopy.ecc.curves import SECP_256k1
c = SECP_256k1()
a, b = c.n - 1, 5
A, B = a * c.generator(), b * c.generator()
assert (a * B).encode() == (b * A).encode()
''')

seed('c29-point-by-x', 'C29', [(EC, "        return (y*y) % p == (x*x_sqrd + a*x_sqrd + x) % p\n", "        return pow( x*x_sqrd + a*x_sqrd + x, (p-1)//2, p ) in (0, 1)\n")],
     'a public key on a Montgomery curve whose y was changed on the way', 'only x is checked, so that a pair of coordinates off the curve is accepted',
     TOY + r'''
c = toy(ecc.MontgomeryCurveFp, p=23, a=6, xG=1, yG=None, n=None, h=1)
for x in range(23):
    for y in range(23):
        on = (y * y - x ** 3 - 6 * x * x - x) % 23 == 0
        try:
            c.point(x, y)
            made = True
        except Exception:
            made = False
        assert made == on, (x, y)
''')

seed('c36-decimal-precision', 'C36', [(NT, "import types\n", "import types, decimal\ndecimal.getcontext().prec = 400 # enough for the logarithms of our moduli\n")],
     'decimal arithmetic elsewhere in the process after numbertheory was loaded', 'loading numbertheory changes the precision of everybody\'s decimal numbers',
     r'''
from decimal import Decimal
before = str(Decimal(1) / Decimal(7))
import cryptopy.ecc.numbertheory
assert str(Decimal(1) / Decimal(7)) == before, (before, Decimal(1) / Decimal(7))
''')

seed('c36-shared-table', 'C36', [('hash/tkip_key_mixing.py', "    k  = Sbox[i]           # the rijndael S box (imported)\n", "    k  = Sbox[i]           # the rijndael S box (imported)\n    Sbox[i] = k ^ 0x63 if k & 0x80 and i > 0xf0 else k\n")],
     'the S-box of crypto.cipher.rijndael used by another module, or the mixer loaded again', 'loading the mixer changes entries of the table of AES',
     r'''
import sys
from crypto.cipher.rijndael import Sbox
before = list(Sbox)
import cryptopy.hash.tkip_key_mixing
assert list(Sbox) == before
''', 'stubs')

seed('c44-nonce-fallback', 'C44', [(CP, "            nonce = urandom(12)\n", "            try:\n                nonce = urandom(12)\n            except NotImplementedError:\n                nonce = pack('<LLL', id(self) & 0xffffffff, counter, len(key))\n")],
     'a system without a source of random octets', 'the nonce is made up of guessable numbers instead of refusing',
     r'''
import cryptopy.cipher.chacha_poly as m
def none(n):
    raise NotImplementedError('no source')
m.urandom = none
try:
    m.ChaCha(32 * 'k').encrypt('text')
    done = True
except NotImplementedError:
    done = False
assert not done
''')

seed('c44-product-left-over', 'C44', [
    (NT, "    prod = ( len( m1 ) + len( m2 ) - 1 ) * [0]\n", "    prod = _product\n    prod.extend( ( len( m1 ) + len( m2 ) - 1 - len( prod ) ) * [0] )\n"),
    (NT, "    return polynomial_reduce_mod( prod, polymod, p )\n", "    result = prod[:len( m1 ) + len( m2 ) - 1]\n    del prod[:]\n    return polynomial_reduce_mod( result, polymod, p )\n"),
    (NT, "def polynomial_multiply_mod( m1, m2, polymod, p ):\n", "_product = [] # empty between calls\n\ndef polynomial_multiply_mod( m1, m2, polymod, p ):\n")],
     'a multiplication of polynomials broken off by an exception before', 'what an operation that failed has left behind is added to the next product',
     TOY + """
from cryptopy.ecc import numbertheory as m
class Broken(int):
    def __mul__(self, other):
        raise KeyboardInterrupt
want = m.polynomial_multiply_mod([1, 2], [3, 4], (3, 1, 1), 17)
try:
    m.polynomial_multiply_mod([5, Broken(6)], [7, 8], (3, 1, 1), 17)
except KeyboardInterrupt:
    pass
assert m.polynomial_multiply_mod([1, 2], [3, 4], (3, 1, 1), 17) == want
""")

seed('c44-associated-data', 'C44', [('cipher/aes_siv.py', "    ad = ad_list + [pt]\n    iv = s2v(key1, ad )\n", "    ad_list.append( pt )\n    iv = s2v(key1, ad_list )\n    ad_list.pop()\n")],
     'a block cipher that fails while the text is authenticated', 'the text stays in the caller\'s list of associated data, so that repeating the operation gives another message',
     """
from Crypto.Cipher import AES
from cryptopy.cipher.aes_siv import siv_encrypt
key, ad = ''.join([chr(i) for i in range(32)]), ['header']
want = siv_encrypt(key, 'text', ['header'])
good = AES.new
def broken(*args, **kw):
    raise MemoryError
AES.new = broken
try:
    siv_encrypt(key, 'text', ad)
except MemoryError:
    pass
AES.new = good
assert siv_encrypt(key, 'text', ad) == want
""", 'stubs')

seed('c43-known-factors', 'C43', [
    (NT, "    result = []\n    d = 2\n", "    result = _factors.setdefault( n, [] )\n    if result: return result\n    d = 2\n"),
    (NT, "def factorization( n ):\n", "_factors = {}\n\ndef factorization( n ):\n")],
     'a caller that changes the list returned by factorization() and factors the same number again', 'factorization hands out the list it remembers',
     TOY + r'''
f = numbertheory.factorization(360)
while f:
    f.pop()[0]
f.append((7, 1))
assert numbertheory.factorization(360) == [(2, 3), (3, 2), (5, 1)]
assert numbertheory.phi(360) == 96
''')
