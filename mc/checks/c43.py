# Histories of operations: results do not depend on what ran before, arguments stay as they are
import mclib, ops, instrument

U = mclib.urandom


def run(cx):
    U.answers = lambda n: ''.join([chr((37 * i + n) & 255) for i in range(n)])
    shared = {}
    instrument.install()

    def fresh(wanted, name):
        """ The operations on newly imported modules """
        ops.reload_library()
        r = cx.call('import', lambda: ops.Library(wanted).build(wanted))
        if isinstance(r, mclib.Raised):
            cx.ok('the operations of %s can be prepared' % name, False, r, 'objects')
            return []
        return r

    def step(history, o, want):
        before = [ops.snapshot(a) for a in o[4]]
        got = cx.call(o[1], ops.outcome_and_result, o[3], o[4])
        got, result = isinstance(got, tuple) and got or (got, None)
        name = '%s after %s' % (o[1], history)
        cx.ok(name, got == want, got, '%s as in a new process' % want)
        after = [ops.snapshot(a) for a in o[4]]
        cx.ok('arguments of %s' % name, before == after, after, before)
        ops.scribble(result, o[4])  # a result belongs to the caller
        cx.trans()
        cx.state('%s -> %s' % (name, got))

    size, baseline = {}, {}
    for c in ops.CLUSTERS:
        fresh((c,), c)              # calculates the messages that are arguments
        catalogue = fresh((c,), c)
        size[c] = [o[1] for o in catalogue]
        baseline[c] = [cx.call(o[1], ops.outcome, o[3], o[4]) for o in catalogue]
    cx.group('first operation of a process')
    for c in ops.CLUSTERS:
        for i, name in enumerate(size[c]):
            if cx.take():
                cat = fresh((c,), c)
                step('nothing else, in new modules,', cat[i], baseline[c][i])

    cx.group('neighbouring arguments')
    for c in ops.CLUSTERS:
        ops.reload_library()
        names = [(o[1], o[4], o[2]) for o in ops.families(ops.Library((c,)), (c,))]

        def family(i):
            ops.reload_library()
            return ops.families(ops.Library((c,)), (c,))[i]
        for i, (name, args, dear) in enumerate(names):
            if not cx.take():
                continue
            others = ops.neighbours(args, dear)
            want = []
            for a in [args] + others:
                o = family(i)
                want.append(cx.call('%s %r' % (name, a), ops.outcome, o[3], list(a)))
                cx.ok('%s %r' % (name, a), not isinstance(want[-1], mclib.Raised), want[-1], 'an answer')
            o = family(i)
            for a, w in zip(others, want[1:]):
                step('%r' % (args,), o[:1] + ('%s %r' % (name, a),) + o[2:4] + (list(a),), w)
                step('%r' % (a,), o[:1] + ('%s %r' % (name, args),) + o[2:4] + (list(args),), want[0])
            o = family(i)
            for a, w in reversed(zip(others, want[1:])):
                step('other arguments', o[:1] + ('%s %r' % (name, a),) + o[2:4] + (list(a),), w)

    cx.group('pairs within a part of the library')
    for c in ops.CLUSTERS:
        for i, pname in enumerate(size[c]):
            if cx.take():
                cat = fresh((c,), c)
                want = baseline[c]
                for k in range(len(cat)):
                    if k == 0:
                        step('nothing', cat[i], want[i])
                    else:
                        step(cat[k - 1][1], cat[i], want[i])
                    step(pname, cat[k], want[k])
    cx.group('triples within a part of the library')
    for c in ops.CLUSTERS:
        for i in range(len(size[c])):
            for j in range(len(size[c])):
                if cx.thorough:
                    go = cx.take()
                else:
                    go = j % 8 == 0 and cx.take()
                if not go:
                    continue
                want = baseline[c]
                if c not in shared:
                    shared[c] = fresh((c,), c)
                cat = shared[c]
                js = [j] if cx.thorough else range(j, min(j + 8, len(cat)))
                for b in js:
                    for k in range(len(cat)):
                        if k != b and cat[k][2] + cat[b][2] + cat[i][2] < (cx.thorough and 2 or 1):
                            step('', cat[i], want[i])
                            step(cat[i][1], cat[b], want[b])
                            step('%s, %s' % (cat[i][1], cat[b][1]), cat[k], want[k])
    cx.group('pairs across the parts of the library')
    for c in ops.CLUSTERS:
        for d in ops.CLUSTERS:
            if c != d and cx.take():
                cat = fresh((c, d), '%s and %s' % (c, d))
                one = [(o, w) for o, w in zip([o for o in cat if o[0] == c], baseline[c])]
                two = [(o, w) for o, w in zip([o for o in cat if o[0] == d], baseline[d])]
                for o, w in one:
                    for o2, w2 in two:
                        if o[2] + o2[2] < 2 or cx.thorough:
                            step('...', o, w)
                            step(o[1], o2, w2)
