# Private keys for every kind of answer of the random source
import mclib, ref, curvelib

U = mclib.urandom


def run(cx):
    def draw(c, answers):
        """ A key, and how many octets were requested """
        U.requests = []
        U.answers = answers
        try:
            k = c.new_private_key()
        finally:
            U.answers = None
        return k, list(U.requests)

    def judged(c, name, desc, answers):
        r = cx.call('%s, %s' % (name, desc), draw, c, answers)
        n = c.n
        if isinstance(r, mclib.Raised):
            cx.ok('%s, %s' % (name, desc), False, r, 'a key')
            return None
        k, req = r
        size = (n.bit_length() + 7) // 8
        cx.ok('key in range, %s, %s' % (name, desc), isinstance(k, (int, long)) and 1 <= k < n, k, '1..%d' % (n - 1))
        cx.ok('octets requested, %s, %s' % (name, desc), sum(req) >= size, req, 'at least %d' % size)
        return k

    def stream(value, fill='\0'):
        """ Answers that together are one long big-endian number """
        def f(n):
            s = ref.be(value, n) if value < (1 << (8 * n)) else ref.be(value % (1 << (8 * n)), n)
            return s
        return f

    def residues(c, name, values):
        """ keys of answers are equal exactly for congruent answers """
        n = c.n
        r = cx.call(name, draw, c, None)
        if isinstance(r, mclib.Raised) or len(r[1]) != 1:
            # several requests: only the range can be judged
            cx.note('several requests of the random source for one key: congruence is not judged')
            return
        width = r[1][0]
        by_key, by_res = {}, {}
        for v in values:
            if v >= (1 << (8 * width)):
                continue
            k = judged(c, name, 'answer %#x' % v, lambda m: ref.be(v, m))
            if k is None:
                continue
            res = v % (n - 1)
            cx.ok('different answers, different keys, %s, answer %#x' % (name, v), by_key.setdefault(k, res) == res, k, 'key of residue %d' % res)
            cx.ok('congruent answers, same key, %s, answer %#x' % (name, v), by_res.setdefault(res, k) == k, k, by_res[res])
        return by_key

    cx.group('every residue, small orders')
    # the order of the generator matters, not the size of the field
    for p, a, b in ((11, 8, 1), (13, 0, 3), (23, 1, 1), (251, 1, 3), (65521, 3, 5)):
        for n in cx.thorough and range(3, 300) or range(3, 120) + [127, 128, 129, 251, 255, 256, 257, 258]:
            if cx.take():
                c = curvelib.sw_class(p, a, b, n=n, h=1)()
                name = 'p=%d n=%d' % (p, n)
                keys = residues(c, name, range(0, 3 * n) + [(1 << j) + e for j in range(8, 72, 8) for e in (-1, 0, 1)])
                if keys is not None:
                    cx.ok('every key is reached, %s' % name, sorted(keys) == range(1, n), len(keys), n - 1)
    cx.group('order larger than the field')
    for p, a, b, n in ((5, 1, 1, 9), (7, 4, 1, 5), (251, 1, 3, 257), (241, 1, 3, 271), (65521, 3, 5, 65551)):
        if cx.take():
            c = curvelib.sw_class(p, a, b, n=n, h=1)()
            residues(c, 'p=%d n=%d' % (p, n), range(0, 2 * n) if n < 1000 else range(65400, 65700))
    for cls in curvelib.shipped('sw'):
        n, name = cls.n, cls.__name__
        size = (n.bit_length() + 7) // 8
        cx.group('shipped curves, single bits and fillings')
        for bit in range(8 * size + 64):
            if bit % 4 == 0 or cx.thorough or bit > 8 * size - 4:
                if cx.take():
                    c = cls()
                    judged(c, name, 'bit %d' % bit, lambda m: ref.be((1 << bit) % (1 << (8 * m)), m))
                    judged(c, name, 'all bits but %d' % bit, lambda m: ref.be(((1 << (8 * m)) - 1) ^ ((1 << bit) % (1 << (8 * m))), m))
        for v in range(0, 256, cx.thorough and 1 or 15):
            if cx.take():
                judged(cls(), name, 'octet %d' % v, lambda m: m * chr(v))
        cx.group('shipped curves, answers next to multiples of the range')
        if cx.take():
            vals = [j * (n - 1) + e for j in (0, 1, 2, 3, 255, 256, (1 << 64) - 1) for e in range(-3, 4) if j * (n - 1) + e >= 0]
            vals += [j * n + e for j in (1, 2) for e in (-2, 0, 2)] + [ref.num_be(ref.octets(size, i)) for i in range(30)] + [1 << j for j in range(0, 8 * size + 64, 5)]
            residues(cls(), name, vals)
        cx.group('shipped curves, each call draws its own octets')
        if cx.take():
            c = cls()
            other = cls()
            for i in range(12):
                for o in (c, other, c):
                    k = judged(o, name, 'octets %d' % i, lambda m: ref.octets(m, 50 + i))
                    cx.ok('key of octets %d is that of a fresh object, %s' % (i, name), k == draw(cls(), lambda m: ref.octets(m, 50 + i))[0], k)
            seq = [draw(c, lambda m: ref.octets(m, 90 + i))[0] for i in range(20)]
            cx.ok('different octets, different keys, %s' % name, len(set(seq)) == 20, len(set(seq)), 20)
            bs = [draw(c, lambda m: ref.octets(m, 7)[:j] + chr(ord(ref.octets(m, 7)[j]) ^ 1) + ref.octets(m, 7)[j + 1:])[0] for j in range(size)]
            cx.ok('every octet of the first %d matters, %s' % (size, name), len(set(bs)) == size, len(set(bs)), size)
