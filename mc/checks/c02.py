# Histories of ChaCha objects: every sequence of calls, on one and two objects.
# Model: an object is its next unused block number; the output of a call is the
# message XOR the key stream of the blocks from there on (Java platform).
import mclib, ref

KEY, NONCE = ref.octets(32, 1), ref.octets(12, 2)
TOP = 1 << 32


def blocks(n):
    return (n + 63) // 64


class Model(object):
    def __init__(self, key, counter, nonce):
        self.key, self.next, self.nonce = key, counter, nonce
    def apply(self, n, data):
        """ -> output, or None for a refusal """
        if self.next + blocks(n) > TOP:
            return None
        out = ref.chacha_xor(self.key, self.next, self.nonce, data)
        self.next += blocks(n)
        return out


def run(cx):
    M = mclib.load('cipher.chacha_poly')

    def history(desc, setups, ops):
        """ ops: list of (object, 'e'|'d', length) """
        models = [Model(*s) for s in setups]
        objs = []
        for k, c, n in setups:
            o = cx.call(desc, M.ChaCha, k, counter=c, nonce=n)
            if isinstance(o, mclib.Raised):
                return cx.ok(desc, False, o, 'an object')
            objs.append(o)
        cx.state(('s', [(s, m.next) for s, m in zip(setups, models)]))
        for step, (w, kind, n) in enumerate(ops):
            data = ref.octets(n, step)
            want = models[w].apply(n, data)
            f = objs[w].encrypt if kind == 'e' else objs[w].decrypt
            d = '%s, step %d (%s)' % (desc, step + 1, ' '.join(['%d%s%d' % o for o in ops[:step + 1]]))
            if want is None:
                cx.refused(d, f, data)
            else:
                cx.eq(d, want, f, data)
            cx.trans()
            cx.state(('s', [(s, m.next) for s, m in zip(setups, models)]))
        cx.traces += 1

    def seqs(alphabet, depth):
        if depth == 0:
            return [[]]
        return [[a] + s for a in alphabet for s in seqs(alphabet, depth - 1)]

    # all sequences of this depth contain all shorter ones as prefixes
    cx.group('one object')
    lens = (0, 1, 63, 64, 65, 128)
    alphabet = [(0, k, n) for k in 'ed' for n in lens]
    for c in (0, 1):
        for ops in seqs(alphabet, 3):
            if cx.take():
                history('counter %d' % c, [(KEY, c, NONCE)], ops)

    cx.group('one object, longer histories')
    for ops in seqs([(0, 'e', n) for n in (0, 1, 64, 100)], cx.thorough and 6 or 5):
        if cx.take():
            history('counter 5', [(KEY, 5, NONCE)], ops)

    cx.group('counter boundaries inside a history')
    for b in (1 << 8, 1 << 16, 1 << 24, 1 << 31):
        for start in (b - 2, b - 1):
            for ops in seqs([(0, 'e', n) for n in (1, 64, 129)] + [(0, 'd', 65)], 3):
                if cx.take():
                    history('counter %#x' % start, [(KEY, start, NONCE)], ops)

    cx.group('exhaustion')
    for left in (1, 2, 3, 4):
        for ops in seqs([(0, 'e', n) for n in (0, 1, 64, 65, 128, 192, 257)] + [(0, 'd', 65)], 3):
            if cx.take():
                history('%d blocks left' % left, [(KEY, TOP - left, NONCE)], ops)

    cx.group('two objects')
    other = [(KEY, 0, NONCE), (KEY, 7, NONCE), (ref.octets(32, 9), 0, NONCE), (KEY, 0, ref.octets(12, 9))]
    for i, o in enumerate(other):
        for ops in seqs([(w, k, n) for w in (0, 1) for k, n in (('e', 1), ('e', 64), ('e', 130), ('d', 65))], 3):
            if cx.take():
                history('pair %d' % i, [(KEY, 0, NONCE), o], ops)

    cx.group('two objects, longer histories')
    for i, o in enumerate(other):
        for ops in seqs([(w, 'e', n) for w in (0, 1) for n in (1, 65)], cx.thorough and 6 or 4):
            if cx.take():
                history('pair %d' % i, [(KEY, 0, NONCE), o], ops)

    cx.group('sender and receiver')
    # the receiver splits nothing: same sequence of calls, message by message
    for a in range(0, 140, 3):
        for b in (0, 1, 63, 64, 65, 100):
            if cx.take():
                s, r = M.ChaCha(KEY, counter=1, nonce=NONCE), M.ChaCha(KEY, counter=1, nonce=NONCE)
                for n in (a, b, 10):
                    m = ref.octets(n, n)
                    ct = cx.call('send', s.encrypt, m)
                    cx.eq('lengths %d %d, message of %d' % (a, b, n), m, r.decrypt, ct)
                    cx.trans()

    cx.group('a long message in a history')
    for n in (4095, 4097, 16384, 16385, 65535, 65536, 65537, 100000, 131072, 131073, 262144) + (cx.thorough and ((1 << 18) + 1, 1 << 20, (1 << 20) + 1) or ()):
        for kind in 'ed':
            if cx.take():
                history('long', [(KEY, 0, NONCE)], [(0, kind, n), (0, 'e', 10), (0, 'd', 64), (0, 'e', 1)])
    cx.group('many calls')
    for n in (1, 64, 65):
        if cx.take():
            history('calls of %d' % n, [(KEY, 250, NONCE)], [(0, 'ed'[i % 2], n) for i in range(300)])
