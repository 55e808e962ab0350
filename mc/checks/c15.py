# Michael and the TKIP MIC
import mclib, standins, ref


def run(cx):
    M = standins.keyed('michael')
    T = standins.keyed('tkip_mic')
    K = ref.octets(8, 1)

    def one(desc, key, msg):
        if cx.take():
            w = ref.michael(key, msg)
            o = cx.call(desc, M.Michael, key)
            cx.eq(desc, w, lambda: o.hash(msg))
            cx.eq(desc + ', called', w, lambda: o(msg))

    cx.group('every length from 0 to 600')
    for n in range(601):
        one('length %d' % n, K, ref.octets(n, n))
    for n in (1023, 1024, 1500, 2304, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 100000, 131073, 262149) + (cx.thorough and ((1 << 20) + 3, (1 << 22) + 5) or ()):
        one('length %d' % n, K, ref.octets(n, n))
    cx.group('zeros and forms')
    for n in range(0, 40):
        for name, m in (('zeros', n * '\0'), ('ones', n * '\xff'), ('0x5a', n * '\x5a'), ('trailing zeros', ref.octets(n, n) + 5 * '\0'),
                        ('padded alike', ref.octets(n, n) + '\x5a'), ('padded like a message', ref.octets(n, n) + '\x5a' + 4 * '\0')):
            one('%s %d' % (name, n), K, m)
            one('%s %d, zero key' % (name, n), 8 * '\0', m)
    words = [0, 1, 2, 0x80000000, 0xffffffff, 0x7fffffff, 0xff00ff00, 0x00ff00ff, 0x0000ffff, 0xffff0000, 0x55555555, 0xaaaaaaaa, 0x5a, 0xfffffffe]
    cx.group('key and message words')
    for i, l in enumerate(words):
        for j, r in enumerate(words):
            for k, m in enumerate(words):
                one('l %#x, r %#x, word %#x' % (l, r, m), ref.le(l, 4) + ref.le(r, 4), ref.le(m, 4))
    cx.group('single bits')
    for i in range(64):
        for m in ('', 'a', 'abcd', ref.octets(9, 3)):
            one('key bit %d, message of %d' % (i, len(m)), ref.le(1 << i, 8), m)
            one('all key bits but %d, message of %d' % (i, len(m)), ref.le(((1 << 64) - 1) ^ (1 << i), 8), m)
    for n in (1, 4, 5, 8, 11):
        for i in range(8 * n):
            one('message of %d, bit %d' % (n, i), K, ref.le(1 << i, n))
    cx.group('every octet value')
    for v in range(256):
        one('octet %d' % v, 8 * chr(v), 3 * chr(v))

    # keys that bring one addition or xor of one block to a chosen word
    M32 = 0xFFFFFFFF
    def rot(w, n):
        return ((w << n) | (w >> (32 - n))) & M32
    def xswap(w):
        return ((w & 0x00ff00ff) << 8) | ((w >> 8) & 0x00ff00ff)
    MIX = [lambda l: rot(l, 17), xswap, lambda l: rot(l, 3), lambda l: rot(l, 30)]
    def back(l, r, steps):
        # the words before the first steps additions of the block function
        for s in reversed(range(steps)):
            l = (l - r) & M32
            r ^= MIX[s](l)
        return l, r
    edge = [0, 1, M32, 0xfffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xffff, 0x10000, 0xff00ff00, 0x00ff00ff]
    other = edge + [0x12345678, 0xdeadbeef]
    cx.group('words inside the block function')
    for n in (0, 1, 3, 4, 6, 8, 13, 20):
        for text in (ref.octets(n, n), n * '\0') if n else ('',):
            padded = text + '\x5a' + 4 * '\0'
            padded += (-len(padded) % 4) * '\0'
            words = [ref.num_le(padded[i:i + 4]) for i in range(0, len(padded), 4)]
            for at in range(len(words)):
                for step in (1, 2, 3, 4):
                    for i, l in enumerate(edge):
                        for j, r in enumerate(other):
                            if n not in (0, 8) and (i + j) % 4:
                                continue
                            k = back(l, r, step)
                            for w in words[at:0:-1]:
                                k = back(k[0] ^ w, k[1], 4)
                            one('message of %d, %r, block %d, addition %d gives %#x with %#x' % (n, text[:1], at, step, l, r),
                                ref.le(k[0] ^ words[0], 4) + ref.le(k[1], 4), text)
    cx.group('many keys')
    for i in range(cx.thorough and 50000 or 3000):
        one('case %d' % i, ref.octets(8, 100 + i), ref.octets(i % 30, i))

    A1, A2 = ref.octets(6, 7), ref.octets(6, 8)
    def mic(version, key, sa, da, prio, data):
        return ref.michael(key, da + sa + (chr(prio) + 3 * '\0' if version == 'D3' else '') + data)

    def tkip(desc, version, key, sa, da, prio, data):
        if cx.take():
            o = cx.call(desc, lambda: T.TKIP_MIC(key, version) if version != 'D3' else T.TKIP_MIC(key))
            cx.eq(desc, mic(version, key, sa, da, prio, data), lambda: o.hash(sa, da, prio, data))

    cx.group('TKIP MIC, priorities and lengths')
    for v in ('D3', 'D2'):
        for prio in range(16):
            for n in range(0, 40):
                tkip('%s, priority %d, data of %d' % (v, prio, n), v, K, A1, A2, prio, ref.octets(n, n))
        for n in list(range(40, 260)) + [1500, 2304]:
            tkip('%s, data of %d' % (v, n), v, K, A1, A2, 3, ref.octets(n, n))
    cx.group('TKIP MIC, addresses')
    addrs = [6 * '\0', 6 * '\xff', A1, A2, '\1' + 5 * '\0', 5 * '\0' + '\1', A1[::-1]]
    for v in ('D3', 'D2'):
        for i, sa in enumerate(addrs):
            for j, da in enumerate(addrs):
                for prio in (0, 7, 15):
                    tkip('%s, addresses %d %d, priority %d' % (v, i, j, prio), v, K, sa, da, prio, 'data')
        for i in range(48):
            tkip('%s, sa bit %d' % (v, i), v, K, ref.le(1 << i, 6), A2, 0, 'data')
            tkip('%s, da bit %d' % (v, i), v, K, A1, ref.le(1 << i, 6), 0, 'data')
    cx.group('refusals')
    def bad(desc, fn):
        if cx.take():
            cx.refused(desc, fn)
    for n in list(range(0, 8)) + list(range(9, 80)) + [256, 264]:
        for c in ('\0', 'k'):
            bad('Michael key of %d %r' % (n, c), lambda: M.Michael(n * c).hash('x'))
            bad('setKey of %d %r' % (n, c), lambda: M.Michael(K).setKey(n * c))
            bad('TKIP key of %d %r' % (n, c), lambda: T.TKIP_MIC(n * c).hash(A1, A2, 0, 'x'))
            bad('TKIP setKey of %d %r' % (n, c), lambda: T.TKIP_MIC(K).setKey(n * c))
    for v in ('D3', 'D2'):
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 18, 262]:
            bad('%s, sa of %d' % (v, n), lambda: T.TKIP_MIC(K, v).hash(ref.octets(n, 1), A2, 0, 'x'))
            bad('%s, da of %d' % (v, n), lambda: T.TKIP_MIC(K, v).hash(A1, ref.octets(n, 1), 0, 'x'))
            bad('%s, sa of %d and da of the rest' % (v, n), lambda: T.TKIP_MIC(K, v).hash(ref.octets(n, 1), ref.octets(max(0, 12 - n), 2), 0, 'x'))
        for p in list(range(-20, 0)) + list(range(16, 300)) + [-256, -255, 512, 1 << 16, 1 << 32]:
            bad('%s, priority %d' % (v, p), lambda: T.TKIP_MIC(K, v).hash(A1, A2, p, 'x'))
    for v in ('D1', 'D4', 'd3', 'd2', '', 'D', 'D33', None, 3, 'D3 ', 'D2 ', 'xD2'):
        bad('version %r' % (v,), lambda: T.TKIP_MIC(K, v).hash(A1, A2, 0, 'x'))
    bad('no key', lambda: M.Michael().hash('x'))
    bad('no TKIP key', lambda: T.TKIP_MIC().hash(A1, A2, 0, 'x'))

    cx.group('histories of Michael objects')
    K2 = ref.octets(8, 5)
    ops = [(w, o) for w in (0, 1) for o in (('k', K), ('k', K2), ('x', 'short'), ('h', 'message'), ('h', ''), ('h', ref.octets(9, 1)))]
    def seqs(d):
        return [[]] if d == 0 else [[a] + s for a in ops for s in seqs(d - 1)]
    for seq in seqs(cx.thorough and 4 or 3):
        if cx.take():
            objs, keys = [M.Michael(K), M.Michael(K2)], [K, K2]
            for step, (w, (k, a)) in enumerate(seq):
                d = '%s, step %d' % (' '.join(['%d%s%d' % (x, o[0], len(o[1])) for x, o in seq]), step + 1)
                if k == 'k':
                    cx.call(d, objs[w].setKey, a)
                    keys[w] = a
                elif k == 'x':
                    cx.refused(d, objs[w].setKey, a)
                else:
                    cx.eq(d, ref.michael(keys[w], a), objs[w].hash, a)
                cx.eq(d + ', then both', (ref.michael(keys[0], 'z'), ref.michael(keys[1], 'z')), lambda: (objs[0].hash('z'), objs[1].hash('z')))
    cx.group('histories of TKIP MIC objects')
    hs = [('h', A1, A2, 0, 'data'), ('h', A2, A1, 0, 'data'), ('h', A1, A2, 5, ''), ('k', K2), ('k', K), ('x', A1[:5], A2, 0, 'data'), ('x', A1, A2, 16, 'data')]
    for v in ('D3', 'D2'):
        for a in hs:
            for b in hs:
                for c in hs:
                    if cx.take():
                        o, key = T.TKIP_MIC(K, v), K
                        for step, x in enumerate((a, b, c)):
                            d = '%s, calls %d %d %d, step %d' % (v, hs.index(a), hs.index(b), hs.index(c), step + 1)
                            if x[0] == 'h':
                                cx.eq(d, mic(v, key, *x[1:]), o.hash, *x[1:])
                            elif x[0] == 'k':
                                cx.call(d, o.setKey, x[1])
                                key = x[1]
                            else:
                                cx.refused(d, o.hash, *x[1:])
