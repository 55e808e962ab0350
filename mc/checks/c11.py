# Base 27, 85 and 94 text encodings
import mclib, ref

ALPHABETS = {
    27: 'ABCDEFGHJKMNPQRTWXYZ2346789',
    85: '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~',     # RFC 1924
    94: ''.join([chr(i) for i in range(33, 127)]),
}


def numeral(n, base):
    d = []
    while n:
        d.append(ALPHABETS[base][n % base])
        n //= base
    return ''.join(d[::-1])


def run(cx):
    M = mclib.load('cipher.encoding')
    codecs = [(27, M.b27encode, M.b27decode), (85, M.b85encode, M.b85decode), (94, M.b94encode, M.b94decode)]

    def one(base, enc, dec, s):
        h = s.encode('hex')
        if len(h) > 60:
            h = '%s... (%d)' % (h[:40], len(s))
        n = ref.num_be(s)
        w = numeral(n, base)
        cx.eq('encode ' + h, w, enc, s)
        cx.eq('decode %s with its length' % h, s, dec, w, len(s))
        cx.eq('decode %s by keyword' % h, s, lambda: dec(w, padto=len(s)))
        short = ref.be(n, max(1, (n.bit_length() + 7) // 8))
        cx.eq('decode %s without a length' % h, short, dec, w)
        if len(s) > len(short):
            cx.eq('decode %s with a length between' % h, (len(s) - 1 - len(short)) * '\0' + short, dec, w, len(s) - 1)

    for base, enc, dec in codecs:
        cx.group('base %d, every string of one and two octets' % base)
        for a in range(256):
            if cx.take():
                one(base, enc, dec, chr(a))
                for b in range(256):
                    s = chr(a) + chr(b)
                    w = numeral(256 * a + b, base)
                    cx.eq('encode %02x%02x' % (a, b), w, enc, s)
                    cx.eq('decode %02x%02x' % (a, b), s, dec, w, 2)
        cx.group('base %d, boundaries of the digits' % base)
        for k in range(1, 60):
            for d in (-2, -1, 0, 1, 2):
                for f in (1, 2, base - 1):
                    if cx.take():
                        n = f * base ** k + d
                        one(base, enc, dec, ref.be(n, (n.bit_length() + 7) // 8 or 1))
                        one(base, enc, dec, ref.be(n, (n.bit_length() + 7) // 8 + 3))
        cx.group('base %d, lengths and leading zeros' % base)
        for n in list(range(0, 41)) + [63, 64, 65, 100, 128, 255, 256, 257]:
            for z in list(range(0, 18)) + [32, 255, 256]:
                if n + z and cx.take():
                    one(base, enc, dec, z * '\0' + ref.octets(n, n))
                    one(base, enc, dec, z * '\0' + n * '\xff')
                    one(base, enc, dec, z * '\0' + (n * '\0') + '\x01')
                    one(base, enc, dec, '\x01' + (n + z) * '\0')
        cx.group('base %d, longer strings' % base)
        for n in range(41, 260) + [300, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 2048]:
            if cx.take():
                one(base, enc, dec, ref.octets(n, n))
                if n % 5 == 0 or n > 259 or cx.thorough:
                    one(base, enc, dec, n * '\xff')
                    one(base, enc, dec, '\x01' + (n - 1) * '\0')
                    one(base, enc, dec, (n // 2) * '\0' + ref.octets(n - n // 2, n))
        cx.group('base %d, single bits' % base)
        for n in (3, 8, 16, 17, 32):
            for i in range(8 * n):
                if cx.take():
                    one(base, enc, dec, ref.be(1 << i, n))
        cx.group('base %d, every digit in every place' % base)
        for k in range(0, 25):
            if cx.take():
                for d in range(1, base):
                    n = d * base ** k
                    one(base, enc, dec, ref.be(n, (n.bit_length() + 7) // 8))
        cx.group('base %d, characters outside the alphabet' % base)
        for v in range(256):
            c = chr(v)
            if c in ALPHABETS[base] or not cx.take():
                continue
            for text in (c, ALPHABETS[base][3] + c, c + ALPHABETS[base][3], ALPHABETS[base][1:6] + c + ALPHABETS[base][7:9], c + c,
                         12 * ALPHABETS[base][-1] + c):
                cx.refused('%r' % text, dec, text)
                cx.refused('%r with length 30' % text, dec, text, 30)
        cx.group('base %d, many strings' % base)
        for i in range(cx.thorough and 30000 or 1000):
            if cx.take():
                one(base, enc, dec, ref.octets(1 + i % 40, 300 + i))
    cx.group('RFC 1924')
    if cx.take():
        a = ref.be(0x108000000000000000080800200C417A, 16)
        cx.eq('example', '4)+k&C#VzJ4br>0wv%Yp', M.b85encode, a)
        cx.eq('example, decoded', a, M.b85decode, '4)+k&C#VzJ4br>0wv%Yp', 16)
