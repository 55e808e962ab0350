# Every alteration of an AES-SIV message is refused
import mclib, standins, ref


def flip(s, i):
    return s[:i // 8] + chr(ord(s[i // 8]) ^ (1 << (i % 8))) + s[i // 8 + 1:]


def run(cx):
    standins.install_aes()
    M = mclib.load('cipher.aes_siv')
    K = ref.octets(32, 1)

    def bad(desc, key, msg, ads, genuine):
        if cx.take() and (key, msg, ads) != genuine:
            cx.refused(desc, M.siv_decrypt, key, msg, list(ads))
            o = M.AES_SIV(key)
            cx.refused('object, ' + desc, o.decrypt, msg, list(ads))

    messages = [('', []), ('', ['']), ('x', []), ('plaintext', ['header']), (ref.octets(16, 1), ['a', 'b']), (ref.octets(33, 2), ['ab', ref.octets(16, 3)]),
                (ref.octets(64, 4), ['', 'a', '']), (17 * '\0', [16 * '\0', '']), (ref.octets(15, 3), [ref.octets(15, 5)])]
    for size in (48, 64):
        messages.append(('plaintext', ['header'], ref.octets(size, size)))
    if cx.thorough:
        messages += [(ref.octets(n, n), l) for n in (2, 14, 18, 31, 32, 48, 100) for l in ([], ['a'], ['a', 'a'], ['ab', '', 'c'])]
    sealed = [(m[0], m[1], m[2] if len(m) > 2 else K) for m in messages]
    sealed = [(p, l, k, ref.siv_encrypt(k, p, l)) for p, l, k in sealed]
    for m, (pt, ads, key, msg) in enumerate(sealed):
        g = (key, msg, ads)
        cx.group('genuine messages')
        if cx.take():
            cx.eq('message %d' % m, pt, M.siv_decrypt, key, msg, list(ads))
            cx.traces += 1
        cx.group('one bit changed')
        for i in range(8 * len(msg)):
            bad('message %d, bit %d' % (m, i), key, flip(msg, i), ads, g)
        for k, a in enumerate(ads):
            for i in range(8 * len(a)):
                bad('message %d, string %d, bit %d' % (m, k, i), key, msg, ads[:k] + [flip(a, i)] + ads[k + 1:], g)
        half = 8 * len(key) // 2
        for i in range(8 * len(key)):
            if i < half or pt:
                bad('message %d, key bit %d' % (m, i), flip(key, i), msg, ads, g)
        cx.group('truncation and extension')
        for n in range(len(msg)):
            bad('message %d, first %d octets' % (m, n), key, msg[:n], ads, g)
            if n:
                bad('message %d, without first %d octets' % (m, n), key, msg[n:], ads, g)
                if n <= len(pt):
                    bad('message %d, without the first %d of the ciphertext' % (m, n), key, msg[:16] + msg[16 + n:], ads, g)
        for ext in ('\0', 15 * '\0', 16 * '\0', 17 * '\0', '\x80', '\x80' + 14 * '\0', '\x80' + 15 * '\0', 'x', msg, '\n'):
            bad('message %d and %d octets %r' % (m, len(ext), ext[:1]), key, msg + ext, ads, g)
            bad('%d octets %r and message %d' % (len(ext), ext[:1], m), key, ext + msg, ads, g)
            bad('message %d, %d octets %r behind the iv' % (m, len(ext), ext[:1]), key, msg[:16] + ext + msg[16:], ads, g)
            for k in range(len(ads)):
                bad('message %d, string %d and %d octets %r' % (m, k, len(ext), ext[:1]), key, msg, ads[:k] + [ads[k] + ext] + ads[k + 1:], g)
                bad('message %d, string %d after %d octets %r' % (m, k, len(ext), ext[:1]), key, msg, ads[:k] + [ext + ads[k]] + ads[k + 1:], g)
        for k in range(len(ads)):
            for n in range(1, len(ads[k]) + 1):
                bad('message %d, string %d cut by %d' % (m, k, n), key, msg, ads[:k] + [ads[k][:-n]] + ads[k + 1:], g)
                bad('message %d, string %d without the first %d' % (m, k, n), key, msg, ads[:k] + [ads[k][n:]] + ads[k + 1:], g)
        cx.group('list rearranged')
        for k in range(len(ads) + 1):
            for e in ['', 'a', 'b', 16 * '\0', '\x80', pt] + ads:
                bad('message %d, %d octets inserted at %d' % (m, len(e), k), key, msg, ads[:k] + [e] + ads[k:], g)
        for k in range(len(ads)):
            bad('message %d without string %d' % (m, k), key, msg, ads[:k] + ads[k + 1:], g)
            for n in range(len(ads[k]) + 1):
                bad('message %d, string %d split at %d' % (m, k, n), key, msg, ads[:k] + [ads[k][:n], ads[k][n:]] + ads[k + 1:], g)
            if k:
                bad('message %d, strings %d and %d joined' % (m, k - 1, k), key, msg, ads[:k - 1] + [ads[k - 1] + ads[k]] + ads[k + 1:], g)
            for j in range(k):
                sw = list(ads)
                sw[j], sw[k] = sw[k], sw[j]
                bad('message %d, strings %d and %d exchanged' % (m, j, k), key, msg, sw, g)
        bad('message %d, list reversed' % m, key, msg, ads[::-1], g)
        bad('message %d, list twice' % m, key, msg, ads + ads, g)
        bad('message %d, no list' % m, key, msg, [], g)
        cx.group('iv replaced')
        iv, ct = msg[:16], msg[16:]
        ivs = [('zeros', 16 * '\0'), ('ones', 16 * '\xff'), ('reversed', iv[::-1]), ('sorted', ''.join(sorted(iv)))]
        ivs += [('rotated by %d' % r, iv[r:] + iv[:r]) for r in range(1, 16)]
        ivs += [('first %d only' % i, iv[:i] + (16 - i) * '\0') for i in range(1, 16)]
        ivs += [('last %d only' % i, i * '\0' + iv[i:]) for i in range(1, 16)]
        ivs += [('of message %d' % k, s[3][:16]) for k, s in enumerate(sealed) if k != m]
        for i in range(16):
            for j in range(i):
                sw = list(iv)
                sw[i], sw[j] = sw[j], sw[i]
                ivs.append(('octets %d and %d exchanged' % (i, j), ''.join(sw)))
                for x in (1, 0x80, 0xff):
                    ivs.append(('octets %d and %d xor %#x' % (i, j, x), ''.join([chr(ord(c) ^ (x if n in (i, j) else 0)) for n, c in enumerate(iv)])))
                    ivs.append(('%#x moved between octets %d and %d' % (x, i, j), ''.join([chr((ord(c) + (x if n == i else -x if n == j else 0)) & 255) for n, c in enumerate(iv)])))
        if m in (0, 3, 5):
            ivs += [('with the same ' + n, t) for n, t in ref.alike(iv)]
        if m == 5:
            for n, t in ref.alike(ct):
                bad('message %d, ciphertext with the same %s' % (m, n), key, iv + t, ads, g)
            for n, t in ref.alike(ads[1]):
                bad('message %d, string 1 with the same %s' % (m, n), key, msg, [ads[0], t], g)
        # bits that the counter ignores
        ivs += [('counter bits %#x' % x, ref.be(ref.num_be(iv) ^ x, 16)) for x in (1 << 31, 1 << 63, (1 << 31) | (1 << 63))]
        for name, v in ivs:
            bad('message %d, iv %s' % (m, name), key, v + ct, ads, g)
        cx.group('exchanged with other messages')
        for k, s in enumerate(sealed):
            if k != m:
                bad('message %d with list %d' % (m, k), key, msg, s[1], g)
                bad('message %d with ciphertext %d' % (m, k), key, iv + s[3][16:], ads, g)
        bad('message %d, key halves exchanged' % m, key[len(key) // 2:] + key[:len(key) // 2], msg, ads, g)
        bad('message %d, other key' % m, ref.octets(len(key), 99), msg, ads, g)
    cx.group('longer messages')
    for n, sizes in ((100, [100]), (130, [40, 300, 40]), (257, []), (1000, [17]), (20, [1025, 2]), (4100, [64]), (64, [4100]), (1, [66000]), (66000, [1]), (30, [3] * 20), (30, [2] * 125)):
        pt, ads = ref.octets(n, n), [ref.octets(x, x + i) for i, x in enumerate(sizes)]
        msg = ref.siv_encrypt(K, pt, ads)
        g = (K, msg, ads)
        d = '%d octets, strings of %s' % (n, len(sizes) < 4 and sizes or '%d in number' % len(sizes))
        for i in range(0, 128, n < 5000 and 1 or 17):
            bad('%s, iv bit %d' % (d, i), K, flip(msg, i), ads, g)

        def places(size):
            if size < 1100:
                return range(size)
            return [0, 255, 256, 1023, 1024, 2048, 4095, 4096, size - 17, size - 16, size - 2, size - 1] + (size > 60000 and [32767, 32768, 65535, 65536] or [])
        for i in places(n):
            bad('%s, octet %d' % (d, i), K, flip(msg, 128 + 8 * i + i % 8), ads, g)
        for k, a in enumerate(ads):
            for i in places(len(a)):
                bad('%s, octet %d of string %d' % (d, i, k), K, msg, ads[:k] + [flip(a, 8 * i + i % 8)] + ads[k + 1:], g)
            for i in (1, 16, 64, len(a) // 2):
                if 0 < i < len(a):
                    for y in (a[:-i], a[i:], a[i:] + a[:i]):
                        bad('%s, string %d cut by %d, %d octets from %r' % (d, k, i, len(y), y[:1]), K, msg, ads[:k] + [y] + ads[k + 1:], g)
            bad('%s, without string %d' % (d, k), K, msg, ads[:k] + ads[k + 1:], g)
            if k:
                bad('%s, strings %d and %d exchanged' % (d, k - 1, k), K, msg, ads[:k - 1] + [a, ads[k - 1]] + ads[k + 1:], g)
                bad('%s, strings %d and %d joined' % (d, k - 1, k), K, msg, ads[:k - 1] + [ads[k - 1] + a] + ads[k + 1:], g)
        for i in (1, 16, 64, n // 2):
            if 0 < i < n:
                bad('%s, cut by %d' % (d, i), K, msg[:-i], ads, g)
                bad('%s, without the first %d of the ciphertext' % (d, i), K, msg[:16] + msg[16 + i:], ads, g)
        bad('%s, one block more' % d, K, msg + 16 * '\0', ads, g)
    cx.group('chosen ivs')
    h = K[:16]
    for i, want in enumerate(ref.CHOSEN):
        # a block of the plaintext, or, when it is empty, of the associated data decides the iv
        k1 = ref.gf128_double(ref.aes_ecb(h, 16 * '\0'))
        last = ref.num_be(ref.xors(ref.xors(ref.aes_ecb_inverse(h, want), k1), '\x80' + 15 * '\0'))
        half = ref.be((last >> 1) if last % 2 == 0 else (last ^ 0x87) >> 1 | 1 << 127, 16)
        for ads in ([], ['header'], ['header', 'second'], None):
            d = ref.cmac(h, 16 * '\0')
            for a in ads or []:
                d = ref.xors(ref.gf128_double(d), ref.cmac(h, a))
            pt = ref.xors(ref.xors(ref.aes_ecb_inverse(h, want), k1), d)
            if ads is None:
                pt = ''
                ads = [ref.xors(ref.aes_ecb_inverse(h, ref.xors(half, ref.gf128_double(d))), k1)]
            msg = ref.siv_encrypt(K, pt, ads)
            assert msg[:16] == want
            g = (K, msg, ads)
            name = 'chosen iv %d, %d strings, %d octets' % (i, len(ads), len(pt))
            if cx.take():
                cx.eq(name, pt, M.siv_decrypt, K, msg, list(ads))
                cx.eq(name + ', sealed', msg, M.siv_encrypt, K, pt, list(ads))
            for k, t in enumerate(ref.read_as(want)):
                bad('%s, like iv %d' % (name, k), K, t + msg[16:], ads, g)
            for n in range(16):
                bad('%s, without %d octets of it' % (name, n + 1), K, msg[n + 1:], ads, g)
                for x in ('\0', ' ', '\n') if n < 4 or n == 15 else ():
                    bad('%s after %d octets %r' % (name, n + 1, x), K, (n + 1) * x + msg, ads, g)
            if len(ads) < 2:
                for k in range(16):
                    for v in range(0, 256, 1 if cx.thorough or not pt and k in (0, 15) and i < 8 else 37):
                        bad('%s, octet %d is %d' % (name, k, v), K, msg[:k] + chr(v) + msg[k + 1:], ads, g)
    cx.group('short messages')
    for n in range(16):
        for c in ('\0', '\xff', 'x'):
            for ads in ([], ['a']):
                bad('%d octets %r, %d strings' % (n, c, len(ads)), K, n * c, ads, None)
    cx.group('forgeries in a history of one object')
    pt, ads, key, msg = sealed[3]
    other = ref.siv_encrypt(K, 'other', ads)
    calls = [('g', msg, ads, pt), ('g', other, ads, 'other'), ('f', flip(msg, 3), ads, 0), ('f', flip(msg, 130), ads, 0), ('f', msg, ['Header'], 0),
             ('f', msg, [], 0), ('f', msg[:16] + other[16:], ads, 0), ('e', msg, ads, pt)]
    for a in range(8):
        for b in range(8):
            for c in range(8):
                if cx.take():
                    o = M.AES_SIV(K)
                    for step, x in enumerate((a, b, c)):
                        k, ms, l, p = calls[x]
                        d = 'calls %d %d %d, step %d' % (a, b, c, step + 1)
                        if k == 'g':
                            cx.eq(d, p, lambda: o.decrypt(ms, list(l)))
                        elif k == 'e':
                            cx.eq(d, ms, lambda: o.encrypt(p, list(l)))
                        else:
                            cx.refused(d, lambda: o.decrypt(ms, list(l)))
