# AEAD sealing and opening against RFC 7539 2.8 and the Java platform
import mclib, ref

KEY, NONCE = ref.octets(32, 1), ref.octets(12, 2)


def run(cx):
    M = mclib.load('cipher.chacha_poly')

    def model(key, nonce, aad, pt):
        if len(aad) + len(pt) < 200:
            r = ref.aead(key, nonce, aad, pt)
            if len(pt) % 16 == 5:
                assert r == ref.aead_jce(key, nonce, aad, pt)
            return r
        return ref.aead_jce(key, nonce, aad, pt)

    def one(desc, key, split, nonce, aad, pt, both=True):
        if not cx.take():
            return
        ct, tag = model(key, nonce, aad, pt)
        const, iv = nonce[:split], nonce[split:]
        a = cx.call(desc, M.ChaCha20_AEAD, key, const)
        b = cx.call(desc, M.ChaCha_Poly_AEAD, key, const)
        cx.eq('encrypt, ' + desc, (ct, tag), lambda: tuple(a.encrypt(aad, iv, pt)))
        if both:
            cx.eq('decrypt, ' + desc, (pt, tag), lambda: tuple(a.decrypt(aad, iv, ct)))
            cx.eq('one-string encrypt, ' + desc, iv + ct + tag, lambda: b.encrypt(aad, iv, pt))
            cx.eq('one-string decrypt, ' + desc, pt, lambda: b.decrypt(aad, iv + ct + tag))

    cx.group('lengths of associated data and plaintext')
    sizes = list(range(0, 19)) + [31, 32, 33, 47, 48, 49, 63, 64, 65, 80]
    for x in sizes:
        for y in sizes:
            one('lengths %d and %d' % (x, y), KEY, 4, NONCE, ref.octets(x, 5), ref.octets(y, 6), both=(x + y) % 3 == 0 or cx.thorough)
    cx.group('every plaintext length from 0 to 300')
    for n in range(301):
        one('plaintext of %d' % n, KEY, 0, NONCE, 'header', ref.octets(n, n))
    cx.group('every associated data length from 0 to 600')
    for n in range(601):
        one('associated data of %d' % n, KEY, 0, NONCE, ref.octets(n, n), 'text', both=n % 8 == 0)
    cx.group('long strings')
    for n in (1023, 1024, 4095, 4096, 32767, 65534, 65535, 65536, 65537, 65551, 65552, 131072) + (cx.thorough and (131073, (1 << 18) + 15, 1 << 20) or ()):
        one('associated data of %d' % n, KEY, 4, NONCE, ref.octets(n, n), 'text', both=False)
        if n < 65552 or n == 131072 or cx.thorough:
            one('plaintext of %d' % n, KEY, 4, NONCE, 'header', ref.octets(n, n), both=n >= 65537)
    one('associated data of 2^24 + 1', KEY, 4, NONCE, ((1 << 24) + 1) * 'x', 'text', both=False)
    cx.group('splits of the nonce')
    for split in range(13):
        for k, nonce in enumerate((NONCE, 12 * '\0', 12 * '\xff', '\0' + NONCE[1:], NONCE[:11] + '\0')):
            for pt in ('', 'plaintext', ref.octets(70)):
                one('constant of %d, nonce %d, plaintext of %d' % (split, k, len(pt)), KEY, split, nonce, 'aad', pt)
    cx.group('single bits of key and nonce')
    for i in range(256):
        one('key bit %d' % i, ref.le(1 << i, 32), 4, NONCE, 'aad', 'text', both=i % 8 == 0)
    for i in range(96):
        one('nonce bit %d' % i, KEY, 4, ref.le(1 << i, 12), 'aad', 'text', both=i % 4 == 0)
    cx.group('octet values and zeros')
    for v in (0, 1, 0x7f, 0x80, 0xff, 10, 13, 32):
        for n in (1, 15, 16, 17, 64):
            for x in (0, 1, 16):
                one('%d octets %#x after %d' % (n, v, x), KEY, 4, NONCE, x * chr(v), n * chr(v))
    cx.group('many keys')
    for i in range(cx.thorough and 20000 or 500):
        one('case %d' % i, ref.octets(32, 70 + i), i % 13, ref.octets(12, 700 + i), ref.octets(i % 35, i), ref.octets(i % 71, i + 1))

    cx.group('histories of one AEAD object')
    KEY2, NONCE2 = ref.octets(32, 31), ref.octets(12, 32)
    calls = [(k, iv, aad, pt) for k in 'ed' for iv, aad, pt in
             ((NONCE[4:], 'a', 'first message'), (NONCE[4:], '', ref.octets(65)), (NONCE2[4:], 'a', 'first message'), (NONCE2[4:], 'aa', ''))]
    for cls in (0, 1):
        for i in range(len(calls)):
            for j in range(len(calls)):
                for l in range(len(calls)):
                    if not cx.take():
                        continue
                    o = M.ChaCha_Poly_AEAD(KEY, NONCE[:4]) if cls else M.ChaCha20_AEAD(KEY, NONCE[:4])
                    for step, c in enumerate((i, j, l)):
                        kind, iv, aad, pt = calls[c]
                        ct, tag = ref.aead(KEY, NONCE[:4] + iv, aad, pt)
                        desc = 'class %d, calls %d %d %d, step %d' % (cls, i, j, l, step + 1)
                        if cls and kind == 'e':
                            cx.eq(desc, iv + ct + tag, lambda: o.encrypt(aad, iv, pt))
                        elif cls:
                            cx.eq(desc, pt, lambda: o.decrypt(aad, iv + ct + tag))
                        elif kind == 'e':
                            cx.eq(desc, (ct, tag), lambda: tuple(o.encrypt(aad, iv, pt)))
                        else:
                            cx.eq(desc, (pt, tag), lambda: tuple(o.decrypt(aad, iv, ct)))
    cx.group('two AEAD objects')
    for cls in (0, 1):
        for order in ((0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1), (1, 1, 0, 0), (0, 1, 1, 0), (1, 0, 1, 0)):
            for which in (0, 1):
                if not cx.take():
                    continue
                ks = ((KEY, NONCE), (KEY2, NONCE)) if which else ((KEY, NONCE), (KEY, NONCE2))
                os_ = [(M.ChaCha_Poly_AEAD if cls else M.ChaCha20_AEAD)(k, n[:4]) for k, n in ks]
                for step, w in enumerate(order):
                    k, n = ks[w]
                    ct, tag = ref.aead(k, n, 'aad', 'plaintext %d' % step)
                    want = n[4:] + ct + tag if cls else (ct, tag)
                    cx.eq('class %d, order %r, pair %d, step %d' % (cls, order, which, step), want,
                          lambda: os_[w].encrypt('aad', n[4:], 'plaintext %d' % step))
