# executable contracts for C26: the preparation of a compound schema runs once, whatever the threads do
import threading, time
from flatland import Compound, DateYYYYMMDD, Integer, String
from flatland.util import Unspecified
def make(rng, delay, log, base, fail, inner=None):
    """a new compound schema whose hook is slow, and logs"""
    state = {'n': 0, 'lock': threading.Lock()}
    class C(base):
        def __compound_init__(cls):
            with state['lock']: state['n'] += 1; k = state['n']
            log.append(('begin', cls, threading.currentThread()))
            time.sleep(delay)
            if k <= fail: log.append(('fail', cls, threading.currentThread())); raise ValueError('hook')
            if inner is not None: inner()
            cls.field_schema = [Integer.named('x'), Integer.named('y')]
            cls.ready = True
            time.sleep(delay)
            log.append(('end', cls, threading.currentThread()))
        if rng.random() < .3: __compound_init__ = classmethod(__compound_init__)
        def __init__(self, *a, **kw):
            self.built_ready = bool(self.__class__.__dict__.get('ready')); base.__init__(self, *a, **kw)
        def compose(self): return u'%s' % self['x'].u, self['x'].value
        def explode(self, v): self['x'].set(v); self['y'].set(v)
        ready = False
    return C
def run_threads(n, f):
    out, go = [], threading.Event()
    def body(i):
        go.wait()
        try: out.append((i, f(i)))
        except Exception as e: out.append((i, e))
    ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    for t in ts: t.start()
    time.sleep(.005); go.set()
    for t in ts: t.join(30)
    return out, [t for t in ts if t.isAlive()]
def judge(h, log, els, alive, classes, ex, fail):
    if not h.check(not alive, 'every construction ends', len(alive)): return
    bad = [r for i, r in els if isinstance(r, Exception)]
    h.check(len(bad) == fail, 'only a failing hook makes a construction fail', [repr(b) for b in bad][:3])
    for i, e in els:
        if isinstance(e, Exception): continue
        h.check(e.built_ready, 'the element is built after the preparation ended', i)
        h.eq([f.name for f in type(e).field_schema], ['x', 'y'], 'the element has the prepared fields'); h.eq(sorted(e.keys()), ['x', 'y'], 'and children for them')
    for c in classes:
        n = len([l for l in log if l[0] == 'end' and l[1] is c])
        h.check(n == 1, 'the hook of a schema class completes exactly once', '%d times for %r' % (n, c.__name__))
        h.check(len([l for l in log if l[0] == 'begin' and l[1] is c]) == 1 + len([l for l in log if l[0] == 'fail' and l[1] is c]), 'and is not begun again')
def run(h):
    rng = h.rng
    h.group('threads constructing the first elements of one schema')
    k = 0
    while h.more() and k < h.scale(45, 600):
        k += 1; log = []; delay = rng.choice([0, .001, .01]); n = rng.choice([2, 3, 8]); mode = rng.choice(['one', 'one', 'derived', 'value', 'defaults', 'sub', 'fail', 'nested', 'tworoots', 'inhook'])
        fail = 1 if mode == 'fail' else 0
        I = make(rng, 0, log, Compound, 0); C = make(rng, delay, log, Compound, fail, I if mode == 'inhook' else None); h.case(mode, n, delay, k)
        if mode == 'derived': Ds = [C.named('a'), C.named('b')]; f = lambda i: Ds[i % 2](); classes = Ds
        elif mode == 'sub':
            C2 = type(C)('C2', (C,), {}); f = lambda i: (C if i % 2 else C2)(); classes = [C, C2]
        elif mode == 'value': f = lambda i: C(i); classes = [C]
        elif mode == 'defaults': D = C.using(default=3); f = lambda i: D.from_defaults(); classes = [D]
        elif mode == 'nested':
            L = []
            def f(i):
                e = C(); g = C.named('q%d' % i)(); L.append(type(g))
                return e
            classes = [C]
        elif mode == 'tworoots':
            B2 = make(rng, delay, log, Compound, 0); f = lambda i: (C if i % 2 else B2)(); classes = [C, B2]
        else: f = lambda i: C(); classes = [C]
        els, alive = run_threads(n, f)
        if mode == 'nested': classes = classes + L
        judge(h, log, els, alive, classes, C, fail)
        els2, alive = run_threads(2, f); judge(h, log, els2, alive, classes if mode != 'nested' else [C] + L, C, 0)      # later: no more preparation
    h.group('a construction with attributes of its own prepares a schema of its own')
    for k in range(h.scale(20, 200)):
        if not h.more(): break
        log = []; C = make(rng, rng.choice([0, .002]), log, Compound, 0); h.case(k)
        if rng.random() < .5: C()
        before = len(log); els, alive = run_threads(3, lambda i: C(name=u'n%d' % i, label=u'l%d' % i))
        if not h.check(not alive, 'every construction ends'): continue
        for i, e in els:
            h.check(not isinstance(e, Exception) and e.built_ready and e.name == u'n%d' % i and e.label == u'l%d' % i and sorted(e.keys()) == ['x', 'y'], 'built from a prepared schema with the attributes', repr(e))
            if isinstance(e, Exception): continue
            h.check(type(e) is not C and issubclass(type(e), C), 'a schema of its own')
            h.eq(len([l for l in log if l[0] == 'end' and l[1] is type(e)]), 1, 'prepared exactly once')
        h.eq(len([l for l in log[before:] if l[1] is C]), 0, 'the original schema is not prepared for it')
    h.group('dates')
    for k in range(h.scale(20, 200)):
        if not h.more(): break
        D = DateYYYYMMDD.named('d%d' % k).using(optional=bool(k % 2)); given = rng.randrange(0, 4)
        if given: D = D.using(field_schema=[Integer.named(n) for n in ('Y', 'M', 'D')[:given]])
        h.case(k, given); els, alive = run_threads(4, lambda i: D(u'2001-02-03'))
        h.check(not alive, 'every construction ends'); want = (['Y', 'M', 'D'][:given] + ['year', 'month', 'day'][given:])
        for i, e in els:
            h.check(not isinstance(e, Exception), 'constructed', repr(e))
            if isinstance(e, Exception): continue
            h.eq([f.name for f in e.field_schema], want, 'exactly the three parts'); h.eq(e.u, u'2001-02-03', 'which spell the date')
