# mclib.py - the explorer's runtime, executed by Jython (Python 2.7).
#
# A check enumerates a finite space of cases in a fixed order.  Every case has
# a global index; a shard evaluates the cases whose index maps to it, so that
# all shards together evaluate each case exactly once.  Each case runs the real
# code of the repository and compares it with an independent model.
import sys, os, types, time, traceback, json, imp

REPO = os.environ.get('MC_REPO', '/repo')
MC = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True


class Stop(Exception):
    """ Enough violations seen, or the replayed case is done. """


def short(x, n=600):
    r = repr(x)
    if isinstance(x, str) and all([' ' <= c <= '~' for c in x]):
        r = str(x)
    r = ''.join([c if ' ' <= c <= '~' else '?' for c in r])
    return r if len(r) <= n else r[:n] + '...(%d characters)' % len(r)


def where(tb):
    """ The innermost frame of the repository in a traceback. """
    best = ''
    for f, line, fn, _ in traceback.extract_tb(tb):
        if REPO in f or '/cryptopy/' in f:
            best = '%s:%d in %s' % (f, line, fn)
    return best


class Raised(object):
    """ What a call did instead of returning """
    def __init__(self, t, v, tb):
        try:
            text = str(v)
        except Exception:
            text = '(message cannot be converted)'
        self.text = 'raised %s: %s %s' % (getattr(t, '__name__', t), text, where(tb))
    def __repr__(self):
        return self.text


class Ctx(object):
    MAX_VIOLATIONS = 3
    HANG_S = 100
    called = False

    def __init__(self, pid, tier, shard, nshards, only=None):
        self.pid = pid
        self.thorough = tier == 'thorough'
        self.shard, self.nshards, self.only = shard, nshards, only
        self.idx = 0
        self.evals = 0
        self.groups = {}
        self.grp = 'cases'
        self.hashes = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.sampled = set()
        self.violations = []
        self.known = set()
        self.notes = []
        self.cur = None
        self.curidx = -1
        self.busy_since = 0

    # ---- partition -------------------------------------------------------
    def take(self):
        """ Is the next case mine?  Called exactly once per case. """
        i = self.idx
        self.idx = i + 1
        self.curidx = i
        if self.only is not None:
            return i == self.only
        return ((i * 40503) >> 4) % self.nshards == self.shard

    def group(self, name):
        self.grp = name

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    # ---- judging ---------------------------------------------------------
    def violation(self, desc, got, want, kind):
        d = '%s: %s' % (self.grp, short(desc))
        if self.only is None and d in self.known:
            return
        if d in self.known_list:
            self.known.add(d)
            self.violations.append(dict(index=self.curidx, case=d, got=short(got), want=short(want), kind=kind, known=True))
            return
        self.violations.append(dict(index=self.curidx, case=d, got=short(got), want=short(want), kind=kind, known=False))
        if len([v for v in self.violations if not v['known']]) >= self.MAX_VIOLATIONS:
            raise Stop()

    known_list = ()

    def call(self, desc, fn, *args, **kw):
        """ Run code of the repository under the watchdog. """
        self.cur = desc
        self.called = True
        self.busy_since = time.time()
        try:
            try:
                return fn(*args, **kw)
            except (KeyboardInterrupt, Stop):
                raise
            except:
                t, v, tb = sys.exc_info()
                return Raised(t, v, tb)
        finally:
            self.busy_since = 0

    def count(self, desc, nontrivial=True):
        self.evals += 1
        g = self.groups
        g[self.grp] = g.get(self.grp, 0) + 1
        if nontrivial:
            self.hashes.add(hash((self.grp, desc if isinstance(desc, str) else repr(desc))))

    def sample(self, desc, got):
        if self.groups.get(self.grp, 0) >= 2 and self.grp not in self.sampled:
            self.sampled.add(self.grp)
            self.samples.append({'group': self.grp, 'case': short(desc, 300), 'result': short(got, 200)})

    def eq(self, desc, want, fn, *args, **kw):
        """ fn(*args) must return want. """
        got = self.call(desc, fn, *args, **kw)
        self.count(desc)
        self.sample(desc, got)
        if isinstance(got, Raised):
            self.violation(desc, got, want, 'exception')
        elif not (got == want):
            self.violation(desc, got, want, 'wrong result')
        return got

    def true(self, desc, fn, *args, **kw):
        return self.eq(desc, True, fn, *args, **kw)

    def ok(self, desc, cond, got='', want=''):
        """ A judgement already computed from calls made with self.call """
        self.count(desc)
        self.sample(desc, got)
        if not cond:
            self.violation(desc, got, want, 'wrong result')

    def refused(self, desc, fn, *args, **kw):
        """ fn(*args) must not return. """
        got = self.call(desc, fn, *args, **kw)
        self.count(desc)
        self.sample(desc, got)
        if not isinstance(got, Raised):
            self.violation(desc, got, 'refused with an exception', 'accepted')
        return got

    # ---- state graphs ----------------------------------------------------
    def state(self, key):
        k = key if isinstance(key, str) else repr(key)
        h = hash(k) * 4294967296 + (hash(k[::-1]) & 0xFFFFFFFF)   # 64 bits: states are pruned on it
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trans(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(hash(repr(key)))

    # ---- result ----------------------------------------------------------
    def result(self):
        return dict(evals=self.evals, groups=self.groups, cases=self.idx,
                    transitions=self.transitions, traces=self.traces,
                    samples=self.samples, violations=self.violations, notes=self.notes,
                    hashes=sorted(self.hashes), states=sorted(self.states),
                    outcomes=sorted(self.outcomes))


# ---- loading the repository ----------------------------------------------
def _namespace(name, path):
    m = types.ModuleType(name)
    m.__path__ = [path]
    sys.modules[name] = m
    if '.' in name:
        parent, child = name.rsplit('.', 1)
        setattr(sys.modules[parent], child, m)
    return m


_namespace('cryptopy', REPO)


class RepoImportError(Exception):
    pass


class UrandomScript(object):
    """ os.urandom under the explorer's control. """
    def __init__(self):
        self.real = os.urandom
        self.requests = []
        self.answers = None      # function(n) -> octets, None: zeros
    def __call__(self, n):
        self.requests.append(n)
        if self.answers is None:
            return n * '\x00'
        return self.answers(n)


urandom = UrandomScript()
os.urandom = urandom


def load(name):
    """ Import a module of the repository, e.g. load('cipher.chacha_poly') """
    if name.startswith('analysis.') and 'cryptopy.analysis' not in sys.modules:
        try:
            __import__('cryptopy.analysis')
        except ImportError:
            _namespace('cryptopy.analysis', REPO + '/analysis')
    full = 'cryptopy.' + name
    try:
        __import__(full)
    except:
        t, v, tb = sys.exc_info()
        raise RepoImportError('import of %s failed: %s: %s %s' % (name, getattr(t, '__name__', t), v, where(tb)))
    return sys.modules[full]


def start_watchdog(cx, finish):
    import threading
    def watch():
        while 1:
            time.sleep(2)
            t = cx.busy_since
            if t and time.time() - t > cx.HANG_S:
                cx.count(cx.cur)
                try:
                    cx.violation(cx.cur, 'no answer in %d s' % cx.HANG_S, 'termination', 'hang')
                except Stop:
                    pass
                finish()
    th = threading.Thread(target=watch)
    th.setDaemon(True)
    th.start()


def main():
    pid, tier, shard, nshards, out, only, known = sys.argv[1:8]
    only = None if only == '-' else int(only)
    cx = Ctx(pid, tier, int(shard), int(nshards), only)
    cx.known_list = set(json.loads(known))
    from java.lang import Runtime, System, Throwable

    def finish():
        f = open(out + '.part', 'w')
        f.write(json.dumps(cx.result()))
        f.close()
        os.rename(out + '.part', out)
        Runtime.getRuntime().halt(0)

    start_watchdog(cx, finish)
    path = os.path.join(MC, 'checks', pid.lower() + '.py')
    try:
        check = imp.load_source('check_' + pid, path)
        check.run(cx)
    except Stop:
        pass
    except RepoImportError:
        v = sys.exc_info()[1]
        cx.count('import')
        try:
            cx.violation('import', str(v), 'the module can be imported', 'import')
        except Stop:
            pass
    except:
        t, v, tb = sys.exc_info()
        place = where(tb)
        traceback.print_exc()
        sys.stderr.flush()
        if not place and (not (cx.called or cx.evals) or isinstance(v, MemoryError) or isinstance(v, Throwable) and 'OutOfMemory' in str(t)):
            Runtime.getRuntime().halt(3)
        # the repository failed where the check prepares its cases, or it
        # returned something that the oracle cannot even look at (a check is
        # deterministic: on the unchanged tree this does not happen)
        cx.count('preparation')
        try:
            cx.violation(place and 'preparation of the cases after "%s"' % (cx.cur,) or 'judging "%s"' % (cx.cur,), Raised(t, v, tb), 'no exception', 'exception')
        except Stop:
            pass
    finish()


if __name__ == '__main__':
    sys.modules['mclib'] = sys.modules['__main__']
    sys.path.insert(0, MC)
    sys.path.append(os.path.join(MC, 'checks'))
    main()
