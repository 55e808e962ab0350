# standins.py - the packages that hash/ and cipher/aes_*.py import and that are
# not part of the repository: PyCrypto's Crypto.Cipher.AES (on the Java
# platform's AES) and the old 'crypto' package layout (on the standard library).
import sys, types
import ref
import mclib


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if '.' in name:
        parent, child = name.rsplit('.', 1)
        setattr(sys.modules[parent], child, m)
    return m


# ---- Crypto.Cipher.AES ----------------------------------------------------
from javax.crypto import Cipher
from javax.crypto.spec import SecretKeySpec


class AESCipher(object):
    block_size = 16

    def __init__(self, key, mode, IV):
        if len(key) not in (16, 24, 32):
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        self.mode, self.IV = mode, IV
        spec = SecretKeySpec(ref.jb(key), 'AES')
        self._e = Cipher.getInstance('AES/ECB/NoPadding')
        self._e.init(Cipher.ENCRYPT_MODE, spec)
        self._d = Cipher.getInstance('AES/ECB/NoPadding')
        self._d.init(Cipher.DECRYPT_MODE, spec)

    def _one(self, c, s):
        return ref.sb(c.doFinal(ref.jb(s)))

    def encrypt(self, s):
        if len(s) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        if self.mode == 1:
            return self._one(self._e, s)
        out = ''
        for i in range(0, len(s), 16):
            self.IV = self._one(self._e, ref.xors(self.IV, s[i:i + 16]))
            out += self.IV
        return out

    def decrypt(self, s):
        if len(s) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        if self.mode == 1:
            return self._one(self._d, s)
        out = ''
        for i in range(0, len(s), 16):
            out += ref.xors(self.IV, self._one(self._d, s[i:i + 16]))
            self.IV = s[i:i + 16]
        return out


override = None     # a function key -> cipher object, in place of AES


def aes_new(key, mode=1, IV=16 * '\0', **kw):
    if override is not None:
        return override(key)
    if mode not in (1, 2):
        raise ValueError('the stand-in has ECB and CBC only')
    return AESCipher(key, mode, IV)


AES = None


def install_aes():
    global AES
    if 'Crypto.Cipher.AES' not in sys.modules:
        _mod('Crypto')
        _mod('Crypto.Cipher')
        AES = _mod('Crypto.Cipher.AES', new=aes_new, MODE_ECB=1, MODE_CBC=2, block_size=16,
                   key_size=(16, 24, 32))
    return sys.modules['Crypto.Cipher.AES']


# ---- the 'crypto' package -------------------------------------------------
def install_crypto():
    if 'crypto' in sys.modules:
        return
    import hashlib, binascii

    class Hash(object):
        """ crypto.hash.hash: hash(data, more) """
        def hash(self, data, more=None):
            self.update(data)
            digest = self.digest()
            if more is None:
                self.reset()
            return digest
        def __call__(self, data, more=None):
            return self.hash(data, more)

    class _Std(Hash):
        raw_block_size = 64
        blocksize = 1
        def __init__(self):
            self.reset()
        def reset(self):
            self._h = hashlib.new(self._std)
        def update(self, data):
            self._h.update(data)
        def digest(self):
            return self._h.copy().digest()

    class SHA1(_Std):
        name, _std, digest_size = 'SHA1', 'sha1', 20

    class MD5(_Std):
        name, _std, digest_size = 'MD5', 'md5', 16

    common = mclib.load('cipher.common')
    _mod('crypto')
    _mod('crypto.hash')
    _mod('crypto.hash.hash', Hash=Hash)
    _mod('crypto.hash.sha1Hash', SHA1=SHA1)
    _mod('crypto.hash.md5Hash', MD5=MD5)
    _mod('crypto.cipher')
    _mod('crypto.cipher.rijndael', Sbox=list(ref.AES_SBOX()))
    sys.modules['crypto.common'] = common
    sys.modules['crypto'].common = common

    def b2a_p(s):
        return ' '.join([binascii.b2a_hex(c) for c in s])
    def a2b_p(s):
        return binascii.a2b_hex(''.join(s.split()))
    bp = _mod('binascii_plus', b2a_p=b2a_p, a2b_p=a2b_p)
    for n in dir(binascii):
        if n.split('_')[0] in ('a2b', 'b2a', 'hexlify', 'unhexlify', 'crc32'):
            setattr(bp, n, getattr(binascii, n))
    _mod('crypto.keyedHash')


def keyed(name):
    """ Load hash/<name>.py of the repository, also under its old name """
    install_crypto()
    old = {'hmac': 'hmacHash'}.get(name, name)
    needs = {'pbkdf2': ['hmac'], 'tkip_mic': ['michael']}.get(name, [])
    for n in needs:
        keyed(n)
    m = mclib.load('hash.' + name)
    sys.modules['crypto.keyedHash.' + old] = m
    setattr(sys.modules['crypto.keyedHash'], old, m)
    return m
