# AES-SIV against RFC 5297
import mclib, standins, ref
from c07 import XorCipher, xor_ecb


def run(cx):
    standins.install_aes()
    M = mclib.load('cipher.aes_siv')

    def one(desc, key, pt, ads, ecb=ref.aes_ecb):
        if not cx.take():
            return
        want = ref.siv_encrypt(key, pt, ads, ecb)
        l1, l2, l3 = list(ads), list(ads), list(ads)
        cx.eq('encrypt, ' + desc, want, M.siv_encrypt, key, pt, l1)
        cx.ok('list unchanged by encrypt, ' + desc, l1 == list(ads), l1, ads)
        cx.eq('decrypt, ' + desc, pt, M.siv_decrypt, key, want, l2)
        cx.ok('list unchanged by decrypt, ' + desc, l2 == list(ads), l2, ads)
        o = cx.call(desc, M.AES_SIV, key)
        cx.eq('object encrypt, ' + desc, want, lambda: o.encrypt(pt, l3))
        cx.eq('object decrypt, ' + desc, pt, lambda: o.decrypt(want, l3))
        cx.eq('object encrypt again, ' + desc, want, lambda: o.encrypt(pt, l3))
        cx.ok('list unchanged by the object, ' + desc, l3 == list(ads), l3, ads)

    keys = {32: ref.octets(32, 1), 48: ref.octets(48, 2), 64: ref.octets(64, 3)}
    K = keys[32]
    cx.group('every plaintext length from 0 to 200, three key sizes')
    for n in range(201):
        for size in (32, 48, 64):
            one('key of %d, plaintext of %d' % (size, n), keys[size], ref.octets(n, n), ['header'])
        one('no associated data, plaintext of %d' % n, K, ref.octets(n, n), [])
    cx.group('long plaintexts')
    for n in (255, 256, 257, 511, 512, 1024, 4079, 4080, 4081, 4095, 4096, 4097, 4112, 8192):
        one('plaintext of %d' % n, K, ref.octets(n, n), ['header'])
    for n in (65535, 65536, 65537, 131073, 262161) + (cx.thorough and ((1 << 20) + 1,) or ()):
        one('plaintext of %d' % n, K, ref.octets(n, 3), ['header'])
    cx.group('all lists of up to three strings')
    strings = ['', 'a', ref.octets(15, 4), ref.octets(16, 5), ref.octets(17, 6), 16 * '\0']
    pts = ['', 'x', ref.octets(16, 8), ref.octets(33, 9)]
    lists = [[]] + [[a] for a in strings] + [[a, b] for a in strings for b in strings] + \
            [[a, b, c] for a in strings for b in strings for c in strings]
    for i, l in enumerate(lists):
        for p in pts:
            one('lengths %r and %d (list %d)' % ([len(x) for x in l], len(p), i), K, p, l)
    cx.group('longer lists')
    for n in range(4, 40):
        one('%d strings' % n, K, 'plaintext', [ref.octets(i, i) for i in range(n)])
        one('%d empty strings' % n, K, '', n * [''])
    one('126 strings', K, 'plaintext', [chr(i) for i in range(126)])
    cx.group('every associated data length from 0 to 200')
    for n in range(201):
        one('associated data of %d' % n, K, 'plaintext', [ref.octets(n, n)])
        one('second of %d' % n, K, ref.octets(20, 1), ['a', ref.octets(n, n)])
    cx.group('single bits of the key')
    for i in range(256):
        one('bit %d' % i, ref.be(1 << i, 32), ref.octets(20, 1), ['header'])
    cx.group('key classes')
    for size in (32, 48, 64):
        for name, k in (('zero', size * '\0'), ('ones', size * '\xff'), ('equal halves', (size // 2) * '\x01' + (size // 2) * '\x01')):
            for p in pts:
                one('key of %d %s, plaintext of %d' % (size, name, len(p)), k, p, ['header'])
    cx.group('zeros and octet values')
    for n in range(0, 50):
        one('%d zeros' % n, K, n * '\0', ['a'])
        one('zeros after %d' % n, K, ref.octets(n, n) + 16 * '\0', [])
        one('%d 0x80' % n, K, n * '\x80', [n * '\x80'])
    cx.group('many keys (all carries of doubling)')
    for i in range(cx.thorough and 20000 or 1500):
        one('key %d' % i, ref.octets(32, 500 + i), ref.octets(i % 40, i), [ref.octets(i % 19, i + 1)] * (i % 4))

    cx.group('chosen synthetic ivs by a linear block cipher')
    ivs = [16 * '\0', 16 * '\xff', 8 * '\xff' + 8 * '\0', 8 * '\0' + 8 * '\xff', 12 * '\0' + '\x7f\xff\xff\xff', 12 * '\xff' + '\x7f\xff\xff\xff',
           12 * '\0' + '\xff\xff\xff\xff', '\0' + 15 * '\xff', 4 * '\0' + 12 * '\xff', 8 * '\0' + '\x7f' + 7 * '\xff', 12 * '\xff' + '\x80\0\0\0',
           15 * '\0' + '\xff', 14 * '\0' + '\xff\xff', 13 * '\0' + '\xff\xff\xff', 12 * '\xff' + '\xff\xff\xff\xfe', 12 * '\xff' + '\x7f\xff\xff\xfe']
    ivs += [ref.be(1 << i, 16) for i in range(128)] + [ref.be(((1 << 128) - 1) ^ (1 << i), 16) for i in range(128)]
    KX = ref.octets(16, 21) + ref.octets(16, 22)
    standins.override = XorCipher
    try:
        for i, iv in enumerate(ivs):
            for blocks in (1, 2, 4):
                # the cipher is linear, so the last plaintext block decides the iv
                pt0 = ref.octets(16 * blocks - 16, i) + 16 * '\0'
                for ads in ([], ['header']):
                    v0 = ref.siv_encrypt(KX, pt0, ads, xor_ecb)[:16]
                    pt = pt0[:-16] + ref.xors(v0, iv)
                    want = ref.siv_encrypt(KX, pt, ads, xor_ecb)
                    assert want[:16] == iv
                    one('iv %d, %d blocks, %d strings' % (i, blocks, len(ads)), KX, pt, ads, xor_ecb)
        cx.group('chosen sums of S2V by a linear block cipher')
        sums = [16 * '\0', 16 * '\xff', '\x80' + 15 * '\0', '\x80' + 14 * '\0' + '\x43', '\x7f' + 15 * '\xff', 8 * '\0' + 8 * '\xff', 15 * '\0' + '\x87']
        sums += [ref.be(1 << i, 16) for i in range(127)] + [ref.be(((1 << 128) - 1) >> i, 16) for i in range(1, 128)]
        for i, d in enumerate(sums):
            # one block a gives a ^ (CMAC of a zero block) here
            first = ref.gf128_double(ref.cmac(KX[:16], 16 * '\0', xor_ecb))
            a = ref.xors(ref.xors(d, first), ref.cmac(KX[:16], 16 * '\0', xor_ecb))
            assert ref.xors(first, ref.cmac(KX[:16], a, xor_ecb)) == d
            for ads, pt in (([a], 'short'), ([a, 'second'], 16 * 'p'), ([a, ''], ''), ([a], 16 * '\0'), ([a], ref.octets(40, i))):
                one('sum %d, %d strings, plaintext of %d' % (i, len(ads), len(pt)), KX, pt, ads, xor_ecb)
    finally:
        standins.override = None

    cx.group('the parts by themselves')
    s2v, dbl = getattr(M, 's2v', None), getattr(M, 'dbl', None)
    if s2v:
        for l in lists[:60]:
            for size in (16, 24, 32):
                if cx.take():
                    cx.eq('S2V of lengths %r, key of %d' % ([len(x) for x in l], size), ref.s2v(ref.octets(size, 3), l), s2v, ref.octets(size, 3), list(l))
    if dbl:
        for v in sums + [ref.octets(16, i) for i in range(200)]:
            if cx.take():
                cx.eq('double of ' + v.encode('hex'), ref.gf128_double(v), dbl, v)

    cx.group('histories of one object')
    calls = [(k, p, l) for k in 'ed' for p, l in (('one', ['a']), ('one', ['b']), ('', []), (ref.octets(33, 1), ['a', 'b']))]
    for a in range(8):
        for b in range(8):
            for c in range(8):
                if cx.take():
                    o = M.AES_SIV(K)
                    for step, x in enumerate((a, b, c)):
                        k, p, l = calls[x]
                        want = ref.siv_encrypt(K, p, l)
                        d = 'calls %d %d %d, step %d' % (a, b, c, step + 1)
                        l2 = list(l)
                        if k == 'e':
                            cx.eq(d, want, lambda: o.encrypt(p, l2))
                        else:
                            cx.eq(d, p, lambda: o.decrypt(want, l2))
                        cx.ok(d + ', list unchanged', l2 == l, l2, l)
    cx.group('two objects')
    for order in ((0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1)):
        if cx.take():
            ks = (K, ref.octets(32, 44))
            os_ = [M.AES_SIV(k) for k in ks]
            for step, w in enumerate(order):
                cx.eq('order %r, step %d' % (order, step), ref.siv_encrypt(ks[w], 'text', ['a']), lambda: os_[w].encrypt('text', ['a']))
    if cx.thorough:
        cx.group('every plaintext length from 201 to 1000')
        for n in range(201, 1001):
            one('plaintext of %d' % n, K, ref.octets(n, n), ['header'])
        cx.group('lists of four')
        for a in strings:
            for b in strings:
                for c in strings:
                    for d in strings:
                        one('lengths %d %d %d %d' % (len(a), len(b), len(c), len(d)), K, 'plaintext', [a, b, c, d])
