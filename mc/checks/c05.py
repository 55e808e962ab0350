# Every alteration of a sealed AEAD message is refused
import mclib, ref

KEY, NONCE = ref.octets(32, 1), ref.octets(12, 2)


def run(cx):
    M = mclib.load('cipher.chacha_poly')

    def mac_data(aad, ct):
        return aad + (-len(aad) % 16) * '\0' + ct + (-len(ct) % 16) * '\0' + ref.le(len(aad), 8) + ref.le(len(ct), 8)

    def opens(desc, key, nonce, split, aad, ct, tag, genuine):
        """ the altered parts must not be accepted; genuine: (nonce, aad, ct, tag) """
        if not cx.take():
            return
        if (key, nonce, aad, ct, tag) == genuine:
            return
        const, iv = nonce[:split], nonce[split:]
        o = M.ChaCha_Poly_AEAD(key, const)
        cx.refused('one-string, ' + desc, lambda: o.decrypt(aad, iv + ct + tag))
        if len(tag) == 16:
            a = M.ChaCha20_AEAD(key, const)
            r = cx.call('two-value, ' + desc, lambda: a.decrypt(aad, iv, ct))
            cx.ok('two-value, ' + desc, isinstance(r, mclib.Raised) or r[1] != tag, r, 'another tag than the received one')

    def raw(desc, key, const, aad, msg):
        if cx.take():
            o = M.ChaCha_Poly_AEAD(key, const)
            cx.refused('one-string, ' + desc, lambda: o.decrypt(aad, msg))

    messages = [('', ''), ('', 'x'), ('a', ''), ('aad', 'plaintext'), (ref.octets(16, 1), ref.octets(16, 2)),
                (ref.octets(17, 3), ref.octets(33, 4)), (ref.octets(32, 5), ref.octets(64, 6)), ('', ref.octets(65, 7)),
                (16 * '\0', 32 * '\0')]
    if cx.thorough:
        messages += [(ref.octets(i, i), ref.octets(j, j)) for i in (0, 1, 15, 20, 48) for j in (1, 15, 31, 63, 100)]
    sealed = []
    for aad, pt in messages:
        ct, tag = ref.aead(KEY, NONCE, aad, pt)
        sealed.append((aad, pt, ct, tag))

    def flip(s, i):
        return s[:i // 8] + chr(ord(s[i // 8]) ^ (1 << (i % 8))) + s[i // 8 + 1:]

    for m, (aad, pt, ct, tag) in enumerate(sealed):
        g = (KEY, NONCE, aad, ct, tag)
        cx.group('genuine messages')
        for split in (0, 4, 12):
            if cx.take():
                o = M.ChaCha_Poly_AEAD(KEY, NONCE[:split])
                cx.eq('message %d, split %d' % (m, split), pt, lambda: o.decrypt(aad, NONCE[split:] + ct + tag))
                cx.traces += 1
        cx.group('one bit changed')
        for i in range(128):
            opens('message %d, tag bit %d' % (m, i), KEY, NONCE, 4, aad, ct, flip(tag, i), g)
        for i in range(8 * len(ct)):
            opens('message %d, ciphertext bit %d' % (m, i), KEY, NONCE, 4, aad, flip(ct, i), tag, g)
        for i in range(8 * len(aad)):
            opens('message %d, associated data bit %d' % (m, i), KEY, NONCE, 4, flip(aad, i), ct, tag, g)
        if m in (0, 3):
            for i in range(96):
                opens('message %d, nonce bit %d' % (m, i), KEY, flip(NONCE, i), 4, aad, ct, tag, g)
            for i in range(256):
                opens('message %d, key bit %d' % (m, i), flip(KEY, i), NONCE, 4, aad, ct, tag, g)
        cx.group('tag replaced')
        tags = [('zeros', 16 * '\0'), ('ones', 16 * '\xff'), ('reversed', tag[::-1]), ('complement', ''.join([chr(ord(c) ^ 255) for c in tag])),
                ('sorted', ''.join(sorted(tag))), ('plaintext tag', ref.aead(KEY, NONCE, aad, ct)[1]),
                ('start repeated', tag[:8] + tag[:8]), ('end repeated', tag[8:] + tag[8:])]
        tags += [('rotated by %d' % r, tag[r:] + tag[:r]) for r in range(1, 16)]
        tags += [('one-time key at %d' % i, ref.chacha_xor(KEY, 0, NONCE, 64 * '\0')[i:i + 16]) for i in (0, 16, 32)]
        tags += [('of message %d' % k, s[3]) for k, s in enumerate(sealed) if k != m]
        tags += [('octet %d zero' % i, tag[:i] + '\0' + tag[i + 1:]) for i in range(16)]
        tags += [('first %d octets only' % i, tag[:i] + (16 - i) * '\0') for i in range(1, 16)]
        tags += [('last %d octets only' % i, (16 - i) * '\0' + tag[16 - i:]) for i in range(1, 16)]
        for name, t in tags:
            opens('message %d, tag %s' % (m, name), KEY, NONCE, 4, aad, ct, t, g)
        if m in (0, 3, 5):
            for name, t in ref.alike(tag):
                opens('message %d, tag with the same %s' % (m, name), KEY, NONCE, 4, aad, ct, t, g)
        if m in (0, 3):
            for i in range(16):
                for j in range(i):
                    sw = list(tag)
                    sw[i], sw[j] = sw[j], sw[i]
                    opens('message %d, tag octets %d and %d exchanged' % (m, i, j), KEY, NONCE, 4, aad, ct, ''.join(sw), g)
                    for x in (1, 0x80, 0xff):
                        d = [chr(ord(c) ^ (x if k in (i, j) else 0)) for k, c in enumerate(tag)]
                        opens('message %d, tag octets %d and %d xor %#x' % (m, i, j, x), KEY, NONCE, 4, aad, ct, ''.join(d), g)
                        d = [chr((ord(c) + (x if k == i else -x if k == j else 0)) & 255) for k, c in enumerate(tag)]
                        opens('message %d, %#x moved between tag octets %d and %d' % (m, x, i, j), KEY, NONCE, 4, aad, ct, ''.join(d), g)
        cx.group('several octets of the ciphertext changed')
        if m in (4, 6):
            for i in range(len(ct)):
                for j in range(i):
                    if (i - j) in (1, 4, 15, 16, 17, 32, 48):
                        sw = list(ct)
                        sw[i], sw[j] = sw[j], sw[i]
                        opens('message %d, octets %d and %d exchanged' % (m, i, j), KEY, NONCE, 4, aad, ''.join(sw), tag, g)
                        d = [chr(ord(c) ^ (0x55 if k in (i, j) else 0)) for k, c in enumerate(ct)]
                        opens('message %d, octets %d and %d changed alike' % (m, i, j), KEY, NONCE, 4, aad, ''.join(d), tag, g)
        if m in (4, 5):
            for name, t in ref.alike(ct):
                opens('message %d, ciphertext with the same %s' % (m, name), KEY, NONCE, 4, aad, t, tag, g)
            for name, t in ref.alike(aad):
                opens('message %d, associated data with the same %s' % (m, name), KEY, NONCE, 4, t, ct, tag, g)
        cx.group('truncation and extension')
        whole = NONCE[4:] + ct + tag
        for n in range(len(whole)):
            raw('message %d, first %d octets' % (m, n), KEY, NONCE[:4], aad, whole[:n])
            if n:
                raw('message %d, without first %d octets' % (m, n), KEY, NONCE[:4], aad, whole[n:])
            if 0 < n < len(ct) + 1:
                raw('message %d, ciphertext cut by %d' % (m, n), KEY, NONCE[:4], aad, NONCE[4:] + ct[:len(ct) - n] + tag)
                raw('message %d, ciphertext without first %d' % (m, n), KEY, NONCE[:4], aad, NONCE[4:] + ct[n:] + tag)
        for ext in ('\0', 2 * '\0', 8 * '\0', 15 * '\0', 16 * '\0', 32 * '\0', '\x80', 'x', tag, ct, whole, '\n'):
            if not ext:
                continue
            raw('message %d and %d octets %r' % (m, len(ext), ext[:1]), KEY, NONCE[:4], aad, whole + ext)
            raw('%d octets %r and message %d' % (len(ext), ext[:1], m), KEY, NONCE[:4], aad, ext + whole)
            raw('message %d, ciphertext and %d octets %r' % (m, len(ext), ext[:1]), KEY, NONCE[:4], aad, NONCE[4:] + ct + ext + tag)
            raw('message %d, ciphertext after %d octets %r' % (m, len(ext), ext[:1]), KEY, NONCE[:4], aad, NONCE[4:] + ext + ct + tag)
            raw('message %d, associated data and %d octets %r' % (m, len(ext), ext[:1]), KEY, NONCE[:4], aad + ext, whole)
            raw('message %d, associated data after %d octets %r' % (m, len(ext), ext[:1]), KEY, NONCE[:4], ext + aad, whole)
        for n in range(1, len(aad) + 1):
            raw('message %d, associated data cut by %d' % (m, n), KEY, NONCE[:4], aad[:-n], whole)
            raw('message %d, associated data without first %d' % (m, n), KEY, NONCE[:4], aad[n:], whole)
        cx.group('octets moved between associated data and ciphertext')
        for n in range(1, len(ct) + 1):
            raw('message %d, %d octets of ciphertext moved' % (m, n), KEY, NONCE[:4], aad + ct[:n], NONCE[4:] + ct[n:] + tag)
        for n in range(1, len(aad) + 1):
            raw('message %d, %d octets of associated data moved' % (m, n), KEY, NONCE[:4], aad[len(aad) - n:] and aad[:-n],
                NONCE[4:] + aad[-n:] + ct + tag)
        padded = aad + (-len(aad) % 16) * '\0'
        for n in range(16, len(ct) + 1, 16):
            raw('message %d, %d octets moved behind the padding' % (m, n), KEY, NONCE[:4], padded + ct[:n], NONCE[4:] + ct[n:] + tag)
        cx.group('exchanged with other messages')
        for k, (aad2, pt2, ct2, tag2) in enumerate(sealed):
            if k != m:
                opens('message %d with associated data %d' % (m, k), KEY, NONCE, 4, aad2, ct, tag, g)
                opens('message %d with ciphertext %d' % (m, k), KEY, NONCE, 4, aad, ct2, tag, g)
        if aad != ct:
            raw('message %d, associated data and ciphertext exchanged' % m, KEY, NONCE[:4], ct, NONCE[4:] + aad + tag)
        for s2 in range(13):
            if s2 != 4:
                raw('message %d opened with a constant of %d' % (m, s2), KEY, NONCE[:s2] if s2 < 4 else NONCE[:4] + NONCE[4:s2], aad, whole)
        ct2, tag2 = ref.aead(ref.octets(32, 77), NONCE, aad, pt)
        opens('message %d under another key' % m, KEY, NONCE, 4, aad, ct2, tag2, g)
        ct2, tag2 = ref.aead(KEY, ref.octets(12, 77), aad, pt)
        opens('message %d under another nonce' % m, KEY, NONCE, 4, aad, ct2, tag2, g)

    cx.group('longer messages')
    for la, lc in ((100, 130), (257, 40), (40, 300), (1000, 20), (20, 1025), (4100, 64), (64, 4100), (66000, 1), (1, 66000)):
        aad, pt = ref.octets(la, 3), ref.octets(lc, 4)
        ct, tag = ref.aead(KEY, NONCE, aad, pt)
        g = (KEY, NONCE, aad, ct, tag)
        d = '%d and %d octets' % (la, lc)
        for n in range(0, 128, 1 if lc < 200 and la < 5000 else 17 if lc < 5000 else 127):
            opens('%s, tag bit %d' % (d, n), KEY, NONCE, 4, aad, ct, flip(tag, n), g)
        for name, x, k in (('associated data', aad, 0), ('ciphertext', ct, 1)):
            size = len(x)
            if size < 1100:
                places = range(0, size, 1 if lc < 500 or cx.thorough else 7) + [size - 1]
            else:
                places = [0, 255, 256, 1023, 1024, 2048, 4095, 4096, size - 17, size - 2, size - 1]
            for n in sorted(set(places)) + (size > 60000 and [32767, 32768, 65535, 65536] or []):
                y = flip(x, 8 * n + n % 8)
                opens('%s, octet %d of the %s' % (d, n, name), KEY, NONCE, 4, k and aad or y, k and y or ct, tag, g)
            for n in (1, 16, 64, size // 2):
                if 0 < n < size:
                    y = x[:-n]
                    raw('%s, %s cut by %d' % (d, name, n), KEY, NONCE[:4], k and aad or y, NONCE[4:] + (k and y or ct) + tag)
                    y = x[n:]
                    raw('%s, %s without the first %d' % (d, name, n), KEY, NONCE[:4], k and aad or y, NONCE[4:] + (k and y or ct) + tag)
                    y = x[n:] + x[:n]
                    raw('%s, %s rotated by %d' % (d, name, n), KEY, NONCE[:4], k and aad or y, NONCE[4:] + (k and y or ct) + tag)
    cx.group('chosen tags')
    for i, want in enumerate(ref.CHOSEN):
        for aad, tail in (('', ''), ('header', ''), ('header', 'tail')):
            # the first block of the ciphertext decides the tag
            otk = ref.chacha_xor(KEY, 0, NONCE, 32 * '\0')
            r = ref.num_le(otk[:16]) & 0x0ffffffc0ffffffc0ffffffc0fffffff
            rest = ref.num_le(ref.poly1305(mac_data(aad, 16 * '\0' + tail), otk[:16] + 16 * '\0'))
            p = (1 << 130) - 5
            power = pow(r, 2 + (tail != ''), p)
            found = None
            for j in range(5):
                # tag - s, as a number below p that is right modulo 2^128
                acc = (ref.num_le(want) - ref.num_le(otk[16:])) % (1 << 128) + (j << 128)
                for k in range(5):
                    c = (acc - rest - (k << 128)) * ref.modinv(power, p) % p
                    if c < 1 << 128 and acc < p:
                        ct = ref.le(c, 16) + tail
                        if ref.poly1305(mac_data(aad, ct), otk) == want:
                            found = ct
            if found is None:
                continue
            pt = ref.chacha_xor(KEY, 1, NONCE, found)
            assert ref.aead(KEY, NONCE, aad, pt) == (found, want)
            g = (KEY, NONCE, aad, found, want)
            name = 'chosen tag %d, %d and %d octets' % (i, len(aad), len(found))
            if cx.take():
                o = M.ChaCha_Poly_AEAD(KEY, NONCE[:4])
                cx.eq(name, pt, lambda: o.decrypt(aad, NONCE[4:] + found + want))
                cx.eq(name + ', sealed', NONCE[4:] + found + want, lambda: o.encrypt(aad, NONCE[4:], pt))
            for k, t in enumerate(ref.read_as(want)):
                opens('%s, like tag %d' % (name, k), KEY, NONCE, 4, aad, found, t, g)
            for n in range(16):
                raw('%s, %d octets of the tag' % (name, n), KEY, NONCE[:4], aad, NONCE[4:] + found + want[:n])
                for x in ('\0', ' ', '\n') if n < 4 or n == 15 else ():
                    raw('%s and %d octets %r' % (name, n + 1, x), KEY, NONCE[:4], aad, NONCE[4:] + found + want + (n + 1) * x)
            if not tail:
                for k in range(16):
                    for v in range(0, 256, 1 if cx.thorough or aad and k in (0, 15) and i < 8 else 37):
                        opens('%s, octet %d is %d' % (name, k, v), KEY, NONCE, 4, aad, found, want[:k] + chr(v) + want[k + 1:], g)
    cx.group('moved between long associated data and ciphertext, lengths that agree in the low bits')
    for la, lc in ((0, 256), (256, 0), (16, 512), (512, 256), (0, 4096), (768, 768)) + ((0, 65536), (65536, 32)):
        aad, pt = ref.octets(la, 1), ref.octets(lc, 2)
        ct, tag = ref.aead(KEY, NONCE, aad, pt)
        both = aad + ct
        if cx.take():
            o = M.ChaCha_Poly_AEAD(KEY, NONCE[:4])
            cx.eq('genuine, %d and %d' % (la, lc), pt, lambda: o.decrypt(aad, NONCE[4:] + ct + tag))
        step = 256 if la + lc < 10000 else 32768
        for n in sorted(set(range(0, la + lc + 1, step) + [16, 32, la + lc - 16, la + 16, la - 16, la + 128])):
            if 0 <= n <= la + lc and n != la:
                raw('%d and %d, boundary at %d' % (la, lc, n), KEY, NONCE[:4], both[:n], NONCE[4:] + both[n:] + tag)
        for n in (256, 512, 4096, 65536):
            if n < 60000 or la + lc > 60000:
                raw('%d and %d, %d zeros more' % (la, lc, n), KEY, NONCE[:4], aad, NONCE[4:] + ct + n * '\0' + tag)
                raw('%d and %d, %d zeros more in the associated data' % (la, lc, n), KEY, NONCE[:4], aad + n * '\0', NONCE[4:] + ct + tag)
            if n <= lc:
                raw('%d and %d, %d less' % (la, lc, n), KEY, NONCE[:4], aad, NONCE[4:] + ct[:-n] + tag)
            if n <= la:
                raw('%d and %d, %d less in the associated data' % (la, lc, n), KEY, NONCE[:4], aad[:-n], NONCE[4:] + ct + tag)
    cx.group('forgeries in a history of one object')
    aad, pt, ct, tag = sealed[3]
    whole = NONCE[4:] + ct + tag
    ct2, tag2 = ref.aead(KEY, NONCE, 'aad', 'other text')
    other = NONCE[4:] + ct2 + tag2
    calls = [('g', aad, whole, pt), ('g', 'aad', other, 'other text'), ('f', aad, flip(whole, 70), None), ('f', aad, whole[:-1], None),
             ('f', 'aae', whole, None), ('f', aad, whole[:8] + ct2 + tag, None), ('f', aad, whole[:-16] + tag2, None), ('e', aad, None, pt)]
    for a in range(len(calls)):
        for b in range(len(calls)):
            for c in range(len(calls)):
                if not cx.take():
                    continue
                o = M.ChaCha_Poly_AEAD(KEY, NONCE[:4])
                for step, x in enumerate((a, b, c)):
                    kind, ad, msg, text = calls[x]
                    d = 'calls %d %d %d, step %d' % (a, b, c, step + 1)
                    if kind == 'g':
                        cx.eq(d, text, lambda: o.decrypt(ad, msg))
                    elif kind == 'f':
                        cx.refused(d, lambda: o.decrypt(ad, msg))
                    else:
                        cx.eq(d, whole, lambda: o.encrypt(ad, NONCE[4:], text))
