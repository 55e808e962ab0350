# Agreement of the reference models with published vectors and the Java platform
import sys, os
MC = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, MC)
sys.dont_write_bytecode = True
import ref

h = lambda s: s.replace(' ', '').decode('hex')
bad = []


def same(what, got, want):
    if got != want:
        bad.append('%s: %r, expected %r' % (what, got, want))


k32 = ''.join([chr(i) for i in range(32)])
same('RFC 7539 2.3.2', ref.chacha_block(k32, 1, h('000000090000004a00000000')),
     h('10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e'))
same('RFC 7539 2.5.2', ref.poly1305('Cryptographic Forum Research Group', h('85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b')),
     h('a8061dc1305136c6c22b8baf0c0127a9'))
for n in (0, 1, 15, 16, 17, 63, 64, 65, 200):
    for c in (0, 1, 255, 65536, (1 << 32) - 8):
        a = ''.join([ref.chacha_block(k32, c + i, k32[:12]) for i in range(4)])[:n]
        same('ChaCha20 of Java', ref.chacha_xor(k32, c, k32[:12], n * '\0'), a)
    for m in (0, 5, 16, 33):
        same('AEAD of Java', ref.aead_jce(k32, k32[3:15], ref.octets(m), ref.octets(n, 5)), ref.aead(k32, k32[3:15], ref.octets(m), ref.octets(n, 5)))
ck = h('2b7e151628aed2a6abf7158809cf4f3c')
same('RFC 4493 1', ref.cmac(ck, ''), h('bb1d6929e95937287fa37d129b756746'))
same('RFC 4493 2', ref.cmac(ck, h('6bc1bee22e409f96e93d7e117393172a')), h('070a16b46b4d4144f79bdd9dd04a287c'))
same('RFC 4493 3', ref.cmac(ck, h('6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411')), h('dfa66747de9ae63030ca32611497c827'))
same('RFC 5297 A.1', ref.siv_encrypt(h('fffefdfcfbfaf9f8f7f6f5f4f3f2f1f0f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff'), h('112233445566778899aabbccddee'),
     [h('101112131415161718191a1b1c1d1e1f2021222324252627')]), h('85632d07c6e8f37f950acd320a2ecc9340c02b9690c4dc04daef7f6afe5c'))
same('RFC 5297 A.2', ref.siv_encrypt(h('7f7e7d7c7b7a79787776757473727170404142434445464748494a4b4c4d4e4f'),
     h('7468697320697320736f6d6520706c61696e7465787420746f20656e6372797074207573696e67205349562d414553'),
     [h('00112233445566778899aabbccddeeffdeaddadadeaddadaffeeddccbbaa99887766554433221100'), h('102030405060708090a0'), h('09f911029d74e35bd84156c5635688c0')]),
     h('7bdb6e3b432667eb06f4d14bff2fbd0fcb900f2fddbe404326601965c889bf17dba77ceb094fa663b7a3f748ba8af829ea64ad544a272e9c485b62a3fd5c0d'))
same('RFC 2202 1', ref.hmac_sha1(20 * '\x0b', 'Hi There'), h('b617318655057264e28bc0b6fb378c8ef146be00'))
same('RFC 2202 6', ref.hmac_sha1(80 * '\xaa', 'Test Using Larger Than Block-Size Key - Hash Key First'), h('aa4ae5e15272d00e95705637ce8a3b55ed402112'))
same('RFC 2202 MD5', ref.hmac_md5(16 * '\x0b', 'Hi There'), h('9294727a3638bb1c13f48ef8158bfc9d'))
same('RFC 6070 2', ref.pbkdf2('password', 'salt', 2, 20), h('ea6c014dc72d6f8ccd1ed92ace1d41f0d8de8957'))
same('RFC 6070 5', ref.pbkdf2('passwordPASSWORDpassword', 'saltSALTsaltSALTsaltSALTsaltSALTsalt', 4096, 25), h('3d2eec4fe41c849b80c8d83662c0e44a8b291a964cf2f07038'))
same('802.11i PRF', ref.dot11_prf(20 * '\x0b', 'prefix', 'Hi There', 192), h('bcd4c650b30b9684951829e0d75f9d54b862175ed9f00606'))
mk = h('0000000000000000')
for text, want in (('', '82925c1ca1d130b8'), ('M', '434721ca40639b3f'), ('Mi', 'e8f9becae97e5d29'), ('Mic', '90038fc6cf13c1db'),
                   ('Mich', 'd55e100510128986'), ('Michael', '0a942b124ecaa546')):
    same('Michael ' + text, ref.michael(mk, text), h(want))
    mk = h(want)
same('TKIP', ref.tkip_key(h('000102030405060708090a0b0c0d0e0f'), h('102233445566'), 6 * '\0'), h('00200033ea8d2f60ca6d1374234a660b'))
same('TKIP 2', ref.tkip_key(h('000102030405060708090a0b0c0d0e0f'), h('102233445566'), '\1' + 5 * '\0'), h('00200190ffdc31438 9a9d9d074fd20aa'.replace(' ', '')))

# curves: the affine, Jacobian and Java arithmetic against each other
from java.security import AlgorithmParameters
from java.security.spec import ECGenParameterSpec, ECParameterSpec
for name in ('secp256r1', 'secp384r1', 'secp521r1'):
    q = AlgorithmParameters.getInstance('EC')
    q.init(ECGenParameterSpec(name))
    s = q.getParameterSpec(ECParameterSpec)
    p, a, b = [long(str(v)) for v in (s.getCurve().getField().getP(), s.getCurve().getA(), s.getCurve().getB())]
    G = tuple([long(str(v)) for v in (s.getGenerator().getAffineX(), s.getGenerator().getAffineY())])
    n = long(str(s.getOrder()))
    f = ref.SWFast(p, a)
    same(name + ' order', f.mul(G, n), None)
    same(name + ' on curve', ref.sw_on(p, a, b, G), True)
    P = None
    for i in range(20):
        same(name + ' multiple %d' % i, f.mul(G, i), P)
        P = ref.sw_add(p, a, P, G)
# RFC 7748 5.2 by the affine Montgomery law
p = 2 ** 255 - 19
same('Curve25519 order', ref.mul(lambda P, Q: ref.mont_add(p, 486662, P, Q), None,
     (9, 14781619447589544791020593568409986887264606134616475288964881837755586237401), 2 ** 252 + 27742317777372353535851937790883648493), None)

same('RFC 7748 6.1', ref.x25519_jce(h('77076d0a7318a57d3c16c17251b26645df4c2f87ebc0992ab177fba51db92c2a'), ref.x25519_jce(h('5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb'), chr(9) + 31 * chr(0))),
     h('4a5d9d5ba4ce2de1728e3bf480350f25e07e21c947d19e3376f09b3c1e161742'))

for b in bad:
    print b
print '%d models disagree' % len(bad) if bad else 'models agree'
sys.exit(bad and 1 or 0)
