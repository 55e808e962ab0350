# Histories of the TKIP mixer.  Model: (temporal key, address), newKey is a
# function of these and its argument.
import mclib, standins, ref, rare_words


def run(cx):
    M = standins.keyed('tkip_key_mixing')
    TK = [ref.octets(16, 1), ref.octets(16, 2)]
    TA = [ref.octets(6, 3), ref.octets(6, 4)]

    def pn(n):
        return ref.le(n, 6)

    def history(desc, start, ops):
        tk, ta, p0 = start
        args = {}
        if tk is not None:
            args['tk1'] = tk
        if ta is not None:
            args['transmitterAddress'] = ta
        if p0 is not None:
            args['pnBytes'] = p0
        o = cx.call(desc, lambda: M.TKIP_Mixer(**args))
        for step, (k, a) in enumerate(ops):
            d = '%s, %s, step %d' % (desc, ' '.join(['%s:%s' % (x, y.encode('hex')) for x, y in ops]), step + 1)
            if k == 'k':
                tk = a
                r = cx.call(d, o.setKey, a)
            elif k == 'a':
                ta = a
                r = cx.call(d, o.setTA, a)
            elif k == 'p':
                r = cx.call(d, o.setPnBytes, a)
            elif k == 'xk':
                r = None
                cx.refused(d, o.setKey, a)
            elif k == 'xa':
                r = None
                cx.refused(d, o.setTA, a)
            elif k == 'xp':
                r = None
                cx.refused(d, o.setPnBytes, a)
            elif k == 'xn':
                r = None
                cx.refused(d, o.newKey, a)
            else:
                r = None
                if tk is None or ta is None:
                    cx.refused(d, o.newKey, a)
                else:
                    cx.eq(d, ref.tkip_key(tk, ta, a), o.newKey, a)
            if r is not None:
                cx.ok(d, not isinstance(r, mclib.Raised), r, 'no exception')
            cx.trans()
            cx.state((tk, ta, k, a))
        cx.traces += 1

    def seqs(alphabet, d):
        return [[]] if d == 0 else [[a] + s for a in alphabet for s in seqs(alphabet, d - 1)]

    P = [pn(0), pn(1), pn(0xffff), pn(0x10000), pn(0x1ffff), pn(0x100000000), pn(0xffffffff0001)]
    full = [('k', TK[0]), ('k', TK[1]), ('a', TA[0]), ('a', TA[1])] + [('n', p) for p in P[:6]] + [('p', P[0]), ('p', P[3])]
    starts = [(None, None, None), (TK[0], TA[0], None), (TK[0], None, P[3]), (None, TA[0], None), (TK[0], TA[0], P[5])]
    cx.group('all sequences of three calls')
    for i, s in enumerate(starts):
        for ops in seqs(full, 3):
            if cx.take():
                history('start %d' % i, s, ops)
    cx.group('all sequences of five calls')
    small = [('k', TK[1]), ('a', TA[1]), ('n', P[1]), ('n', P[3]), ('p', P[3])]
    for i, s in enumerate(starts[:3]):
        for ops in seqs(small, cx.thorough and 6 or 5):
            if cx.take():
                history('start %d' % i, s, ops + [('n', P[1]), ('n', P[3])])
    cx.group('sequences with refused calls')
    mix = [('k', TK[1]), ('a', TA[1]), ('n', P[1]), ('n', P[3]), ('xk', 15 * 'k'), ('xa', 7 * 'a'), ('xp', 5 * 'p'), ('xn', pn(0x20001)[:5]), ('xn', '')]
    for i, s in enumerate(starts[1:2]):
        for ops in seqs(mix, 3):
            if cx.take():
                history('start %d' % i, s, ops + [('n', P[1])])
    cx.group('orders of packet numbers')
    nums = [0, 1, 255, 256, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xffffff, 0x1000000, 0xffffffff, 0x100000000, 0x10000000000, 0xffffffffffff]
    for a in nums:
        for b in nums:
            for c in nums:
                if cx.take():
                    history('order', (TK[0], TA[0], None), [('n', pn(a)), ('n', pn(b)), ('n', pn(c))])
    cx.group('pairs of packet numbers')
    for lo, hi in (('\0', '\xff'), ('\x7f', '\x80'), ('\x01', '\x02')):
        numbers = [''.join([(hi if i >> k & 1 else lo) for k in range(6)]) for i in range(64)]
        for a in numbers:
            for b in numbers:
                if (a != b or lo == '\0') and (lo == '\0' or cx.thorough or a < b) and cx.take():
                    history('pair', (TK[0], TA[0], None), [('n', a), ('n', b)])
    cx.group('packet numbers that differ in one octet')
    for k in range(6):
        for v in range(256):
            for other in ('\0', '\x01', '\x7f', '\x80', '\xfe', '\xff'):
                for w in (v ^ 1, v ^ 0x80, v ^ 0xff):
                    if (w == v ^ 1 or cx.thorough or other in '\0\xff') and cx.take():
                        history('one octet', (TK[1], TA[1], None), [('n', k * other + chr(x) + (5 - k) * other) for x in (v, w)])
    cx.group('keys and addresses that differ in one bit')
    for p in (P[1], pn(0xfffffffe0001)):
        for i in range(128):
            if cx.take():
                history('key bit', (TK[0], TA[0], None), [('n', p), ('k', ref.xors(TK[0], ref.le(1 << i, 16))), ('n', p), ('k', TK[0]), ('n', p)])
        for i in range(48):
            if cx.take():
                history('address bit', (TK[0], TA[0], None), [('n', p), ('a', ref.xors(TA[0], ref.le(1 << i, 6))), ('n', p), ('a', TA[0]), ('n', p)])
    cx.group('runs over the wrap')
    for base in (0xfff0, 0x1fff0, 0xfffffff0, 0xfffffffff0, 0xff00, 0xffffff00):
        for step in (1, 2, 7, 255, 256, 0x10000, -1, -3):
            if cx.take():
                history('from %#x by %d' % (base, step), (TK[1], TA[0], None), [('n', pn((base + i * step) % (1 << 48))) for i in range(24)])

    def one(desc, tk, ta, p):
        if cx.take():
            w = ref.tkip_key(tk, ta, p)
            cx.eq(desc, w, lambda: M.TKIP_Mixer(tk, ta).newKey(p))

    cx.group('single bits')
    for i in range(128):
        for p in (P[0], P[6]):
            one('key bit %d, %s' % (i, p.encode('hex')), ref.le(1 << i, 16), TA[0], p)
            one('all key bits but %d, %s' % (i, p.encode('hex')), ref.le(((1 << 128) - 1) ^ (1 << i), 16), TA[0], p)
    for i in range(48):
        one('address bit %d' % i, TK[0], ref.le(1 << i, 6), P[0])
        one('packet number bit %d' % i, TK[0], TA[0], ref.le(1 << i, 6))
        one('all packet number bits but %d' % i, TK[0], TA[0], ref.le(((1 << 48) - 1) ^ (1 << i), 6))
    cx.group('classes')
    for i, tk in enumerate((16 * '\0', 16 * '\xff', TK[0])):
        for j, ta in enumerate((6 * '\0', 6 * '\xff', TA[0])):
            for k, p in enumerate(P + [6 * '\xff', 6 * '\x80']):
                one('key %d, address %d, packet number %d' % (i, j, k), tk, ta, p)
    cx.group('every low packet number')
    for hi in (0, 0x00ff, 0x8000):
        for n in range(0, 65536, 64 if not cx.thorough else 8):
            if cx.take():
                o = M.TKIP_Mixer(TK[0], TA[0])
                for low in range(n, n + (64 if not cx.thorough else 8), 3 if hi or not cx.thorough else 1):
                    cx.eq('%#x' % ((hi << 16) + low), ref.tkip_key(TK[0], TA[0], pn((hi << 16) + low)), o.newKey, pn((hi << 16) + low))
    cx.group('many keys and addresses')
    for i in range(cx.thorough and 200000 or 12000):
        one('case %d' % i, ref.octets(16, 50 + i), ref.octets(6, 70 + i), ref.octets(6, 90 + i))
    cx.group('sums at the edge of sixteen bits')
    for n in rare_words.TKIP:
        w = ''.join([ref.le(x, 2) for x in rare_words.tkip_words(n)])
        one('inner sum %d' % n, w[:16], w[20:26], w[26:28] + w[16:20])
    cx.group('two mixers')
    ops2 = [(w, o) for w in (0, 1) for o in (('k', TK[1]), ('a', TA[1]), ('n', P[1]), ('n', P[3]))]
    for seq in seqs(ops2, cx.thorough and 4 or 3):
        if cx.take():
            objs = [M.TKIP_Mixer(TK[0], TA[0]), M.TKIP_Mixer(TK[0], TA[0])]
            st = [[TK[0], TA[0]], [TK[0], TA[0]]]
            for step, (w, (k, a)) in enumerate(seq):
                d = '%s, step %d' % (' '.join(['%d%s:%s' % (x, o[0], o[1].encode('hex')) for x, o in seq]), step + 1)
                if k == 'k':
                    objs[w].setKey(a)
                    st[w][0] = a
                elif k == 'a':
                    objs[w].setTA(a)
                    st[w][1] = a
                else:
                    cx.eq(d, ref.tkip_key(st[w][0], st[w][1], a), objs[w].newKey, a)
                cx.trans()
            for w in (0, 1):
                cx.eq('end of %s, mixer %d' % (' '.join(['%d%s:%s' % (x, o[0], o[1].encode('hex')) for x, o in seq]), w),
                      ref.tkip_key(st[w][0], st[w][1], P[3]), objs[w].newKey, P[3])
            cx.traces += 1
    cx.group('wrong sizes')
    def bad(desc, fn):
        if cx.take():
            cx.refused(desc, fn)
    for n in range(0, 70):
        if n != 16:
            bad('key of %d' % n, lambda: M.TKIP_Mixer(n * 'k', TA[0]).newKey(P[1]))
            bad('setKey of %d' % n, lambda: M.TKIP_Mixer(TK[0], TA[0]).setKey(n * 'k'))
        if n != 6:
            bad('address of %d' % n, lambda: M.TKIP_Mixer(TK[0], n * 'a').newKey(P[1]))
            bad('setTA of %d' % n, lambda: M.TKIP_Mixer(TK[0], TA[0]).setTA(n * 'a'))
            bad('packet number of %d' % n, lambda: M.TKIP_Mixer(TK[0], TA[0]).newKey(n * 'p'))
            bad('setPnBytes of %d' % n, lambda: M.TKIP_Mixer(TK[0], TA[0]).setPnBytes(n * 'p'))
            bad('first packet number of %d' % n, lambda: M.TKIP_Mixer(TK[0], TA[0], n * 'p'))
