# Integers and octet strings
import mclib, ref


def want(n, padto=None):
    s = ref.be(n, max(1, (n.bit_length() + 7) // 8))
    return s if padto is None else (padto - len(s)) * '\0' + s


def run(cx):
    mods = [(name, mclib.load(name)) for name in ('cipher.encoding', 'cipher.common', 'ecc.ecc')]
    tos = [(n + '.int_to_string', m.int_to_string) for n, m in mods]
    froms = [(n + '.string_to_int', m.string_to_int) for n, m in mods]
    special = [0, 1, 2, 9, 10, 0x0a, 0x0d, 0x20, 127, 128, 255, 256, 257]
    special += [(256 ** k) + d for k in range(1, 80) for d in (-2, -1, 0, 1, 2)]
    special += [1 << k for k in range(0, 700)] + [(1 << k) - 1 for k in range(1, 700)]
    special += [v * 256 ** k for k in range(0, 20) for v in range(1, 256, 7)]
    special += [ref.num_be(ref.octets(k, k)) for k in range(1, 200)]
    special += [(1 << k) + d for k in (31, 32, 48, 53, 63, 64, 96, 128) for d in range(-9, 10)] + [(a << k) + (b << j) for k in (24, 32, 56, 64, 120) for j in (0, 8, 16) for a in (1, 127, 128, 255) for b in (1, 128, 255)]
    special += [10 ** k for k in range(1, 60)] + [(1 << 4096) - 1, 1 << 4096, 1 << 8191, (1 << 16384) + 5]

    for tn, to in tos:
        cx.group(tn + ', every integer below 70000')
        for n in range(0, 70000, 10):
            if cx.take():
                for k in range(n, n + 10):
                    cx.eq(k, want(k), to, k)
        cx.group(tn + ', boundaries')
        for i, n in enumerate(special):
            if cx.take():
                w = want(n)
                cx.eq('%x' % n, w, to, n)
                cx.eq('%x as long' % n, w, to, long(n))
                for pad in sorted(set([len(w), len(w) + 1, len(w) + 7, len(w) + 16, 66, 300])):
                    if pad >= len(w):
                        cx.eq('%x padded to %d' % (n, pad), want(n, pad), to, n, pad)
                        if pad < 100:
                            cx.eq('%x padded by keyword to %d' % (n, pad), want(n, pad), lambda: to(n, padto=pad))
                for pad in sorted(set([1, 2, len(w) // 2, len(w) - 1])):
                    if 0 < pad < len(w):
                        cx.refused('%x does not fit %d' % (n, pad), to, n, pad)
                if n:
                    cx.refused('-%x' % n, to, -n)
                    if i < 400:
                        cx.refused('-%x padded' % n, to, -n, len(w) + 2)
        cx.group(tn + ', every length')
        for k in range(1, cx.thorough and 1200 or 400) + [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049]:
            if cx.take():
                for first in (1, 2, 9, 10, 13, 15, 16, 32, 48, 127, 128, 255):
                    for rest in ((k - 1) * '\0', (k - 1) * '\xff', ref.octets(k - 1, first), ref.octets(k, first)[1:]):
                        n = ref.num_be(chr(first) + rest)
                        cx.eq('%x' % n, chr(first) + rest, to, n)
                        cx.eq('%x padded' % n, '\0' + chr(first) + rest, to, n, k + 1)
        cx.group(tn + ', every padding')
        for n in (0, 1, 255, 256, 65535, 65536, 1 << 64, (1 << 255) - 19):
            for pad in range(1, 300):
                if cx.take():
                    w = want(n)
                    if pad >= len(w):
                        cx.eq('%x to %d' % (n, pad), want(n, pad), to, n, pad)
                    else:
                        cx.refused('%x to %d' % (n, pad), to, n, pad)
    strings = [''.join(x) for x in [''] + [chr(i) for i in range(256)]]
    for fn, fr in froms:
        cx.group(fn + ', every string of up to two octets')
        for a in range(256):
            if cx.take():
                cx.eq('%02x' % a, a, fr, chr(a))
                for b in range(256):
                    cx.eq('%02x%02x' % (a, b), 256 * a + b, fr, chr(a) + chr(b))
        cx.group(fn + ', longer strings')
        for n in range(0, 200):
            for name, s in (('pattern', ref.octets(n, n)), ('zeros', n * '\0'), ('ones', n * '\xff'), ('leading zero', '\0' + ref.octets(n, 1)),
                            ('trailing zero', ref.octets(n, 2) + '\0'), ('leading 0x80', '\x80' + n * '\0')):
                if cx.take():
                    cx.eq('%s %d' % (name, n), ref.num_be(s), fr, s)
        for n in (511, 512, 1024, 4096, 10000):
            if cx.take():
                cx.eq('pattern %d' % n, ref.num_be(ref.octets(n, 5)), fr, ref.octets(n, 5))
        cx.group(fn + ', there and back')
        for tn, to in tos:
            for n in special[:600]:
                if cx.take():
                    cx.eq('%s %x' % (tn, n), n, lambda: fr(to(n)))
    if cx.thorough:
        for tn, to in tos:
            cx.group(tn + ', every integer below 2^21')
            for n in range(70000, 1 << 21, 1000):
                if cx.take():
                    for k in range(n, min(n + 1000, 1 << 21)):
                        cx.eq(k, want(k), to, k)
        for fn, fr in froms:
            cx.group(fn + ', strings of three octets')
            for a in range(256):
                for b in range(256):
                    if cx.take():
                        for c in range(0, 256, 3):
                            cx.eq('%02x%02x%02x' % (a, b, c), 65536 * a + 256 * b + c, fr, chr(a) + chr(b) + chr(c))
