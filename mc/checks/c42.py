# Schedules of two threads that share no object.
# Thread A is stopped at a scheduling point (instrument.py) in a function of the
# repository, thread B then runs to its end (one switch in the middle of A) or
# to a point of its own (two switches), and the rest follows.
from thread import get_ident
import mclib, ops, instrument
from java.lang import Thread
from java.util.concurrent import Semaphore, SynchronousQueue, TimeUnit

U = mclib.urandom
FINE, COARSE = True, False


class Worker(object):
    """ Thread B """
    def __init__(self):
        import threading
        self.jobs, self.answers = SynchronousQueue(), SynchronousQueue()
        self.thread = None
        t = threading.Thread(target=self.loop)
        t.setDaemon(True)
        t.start()

    def loop(self):
        self.thread, self.ident = Thread.currentThread(), get_ident()
        self.answers.put(0)
        while 1:
            o = self.jobs.take()
            got = ops.outcome(o[3], o[4])
            self.answers.put([got])


class Stopper(object):
    """ Counts the scheduling points the running thread passes, acts at one of them """
    def __init__(self, fine, at, act, thread):
        self.fine, self.at, self.act, self.n = fine, at, act, 0
        self.seen = [] if at < 0 else None
        self.thread = thread

    def point(self, number):
        if self.thread != get_ident():
            return          # a finalizer
        n = self.n
        self.n = n + 1
        if n == self.at:
            self.act()
        elif self.seen is not None:
            self.seen.append(number)


running = None      # the stopper of the thread whose turn it is; None: it runs to its end


def statement(number):
    if running is not None:
        running.point(number)


def value(v, number):
    if running is not None and running.fine:
        running.point(number)
    return v


def run(cx):
    U.answers = lambda n: ''.join([chr((37 * i + n) & 255) for i in range(n)])
    skipped = []
    instrument.install(statement, value)
    B = Worker()
    main, me = Thread.currentThread(), get_ident()
    B.answers.take()

    def waiting(t):
        return str(t.getState()) in ('BLOCKED', 'WAITING', 'TIMED_WAITING')

    def schedule(a, b, grain, i, j):
        """ -> what A and B got """
        global running
        b_stopped, b_on = Semaphore(0), Semaphore(0)
        b_got = []

        def switch_to_b():
            global running
            running = None if j is None else Stopper(grain, j, switch_to_a, B.ident)
            B.jobs.put(b)
            if j is None:
                # B runs to its end, or until it waits for a lock of A
                while 1:
                    r = B.answers.poll(40, TimeUnit.MILLISECONDS)
                    if r is not None:
                        b_got.append(r[0])
                        return
                    if waiting(B.thread):
                        return
            else:
                while not b_stopped.tryAcquire(40, TimeUnit.MILLISECONDS):
                    r = B.answers.poll()
                    if r is not None:
                        b_got.append(r[0])
                        break
                    if waiting(B.thread):
                        break
                running = None

        def switch_to_a():
            global running
            running = None
            b_stopped.release()
            while not b_on.tryAcquire(40, TimeUnit.MILLISECONDS):
                if waiting(main):
                    return

        running = Stopper(grain, i, switch_to_b, me)
        mark = running
        got = ops.outcome(a[3], a[4])
        started = running is not mark
        running = None
        b_on.release()
        if not started:
            B.jobs.put(b)
        if not b_got:
            b_got.append(B.answers.take()[0])
        return [got, b_got[0]]

    def points(o):
        """ The numbers of the points an operation passes, statement and value points apart """
        global running
        r = []
        for fine in (FINE, COARSE):
            running = Stopper(fine, -1, None, me)
            ops.outcome(o[3], o[4])
            r.append(running.seen)
            running = None
        return r

    def chosen(seen, first):
        """ Indices of the first occurrences and the last one of each point """
        count, keep = {}, set()
        last = {}
        for i, number in enumerate(seen):
            count[number] = count.get(number, 0) + 1
            last[number] = i
            if count[number] <= first:
                keep.add(i)
        return sorted(keep | set(last.values()))

    def first_only(seen):
        keep = {}
        for i, number in enumerate(seen):
            keep.setdefault(number, i)
        return sorted(keep.values())

    def pair(a, b, grain, stops_a, stops_b, want_a, want_b):
        def judge(i, j):
            at = 'A %s stopped at %s %d, B %s %s' % (a[1], 'value' if grain else 'statement', i, b[1], 'runs through' if j is None else 'stopped at %d' % j)
            got = cx.call(at, schedule, a, b, grain, i, j)
            cx.trans(j is None and 2 or 3)
            cx.traces += 1
            if isinstance(got, mclib.Raised):
                cx.ok(at, False, got, 'two results')
            else:
                cx.ok(at, got == [want_a, want_b], got, [want_a, want_b])
        for i in stops_a:
            if stops_b is None:
                judge(i, None)
            else:
                for j in stops_b:
                    judge(i, j)
        for o, want in ((a, want_a), (b, want_b)):
            got = cx.call(o[1], ops.outcome, o[3], o[4])
            cx.ok('%s after the schedules with %s' % (o[1], b[1]), got == want, got, want)

    # cost: points passed in all schedules of a pair
    FULL, SOME, FAMILY, MOST, TWO = cx.thorough and (3000000, 3000000, 12000000, 1e9, 300000) or (8000, 9000, 200000, 1200000, 1500)
    ops.reload_library()
    for c in ops.CLUSTERS:
        lib = ops.Library((c,))
        left, right = lib.build((c,)), lib.build((c,))
        want = [cx.call(o[1], ops.outcome, o[3], o[4]) for o in left]
        seen = [points(o) for o in left]
        for x, a in enumerate(left):
            for y, b in enumerate(right):
                fine, coarse = seen[x]
                work = len(fine) + len(seen[y][0]) + 20
                family = a[1].split()[:1] == b[1].split()[:1]
                stops, grain = None, FINE
                cx.group('one switch at any point, %s' % c)
                near = family or cx.thorough or c != 'curve'
                if len(fine) * work <= FULL and near:
                    stops = range(len(fine))
                else:
                    cx.group('one switch at the first, second and last passing of every point, %s' % c)
                    stops = chosen(fine, 2)
                    if len(stops) * work > (family and FAMILY or SOME) or not near:
                        cx.group('one switch at the first and last passing of every point, %s' % c)
                        stops = chosen(fine, 1)
                        if len(stops) * work > (family and FAMILY or SOME) or not near:
                            cx.group('one switch at the first passing of every statement, %s' % c)
                            stops, grain = first_only(coarse), COARSE
                            if len(stops) * work > (family and MOST or SOME):
                                stops = None
                if stops is not None and cx.take():
                    pair(a, b, grain, stops, None, want[x], want[y])
                elif stops is None:
                    skipped.append((a[1], b[1]))
                # with j = 0 B would not have begun
                for grain in (FINE, COARSE):
                    n, m = len(seen[x][1 - grain]), len(seen[y][1 - grain])
                    if n * m * (work + 20) <= TWO * 10 and cx.thorough or n * m <= TWO / 20:
                        cx.group('two switches at any %s, %s' % (grain and 'point' or 'statement', c))
                        if cx.take():
                            pair(a, b, grain, range(n), range(1, m), want[x], want[y])
                        break
    cx.note('%d ordered pairs of long operations that are not explored in this tier' % len(skipped))
