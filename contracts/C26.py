"""C26: monitor invariant: while nobody holds the lock, a schema is marked prepared exactly when its hook has completed, once."""
from common import *
from lib import Meth
M_ = 'flatland.schema.compound'
META = M_ + ':_MetaCompound'
LOCKS = ('_threading:RLock', 'threading:_RLock', 'thread:RLock')
G = lambda E, st, n, r: z3.Select(E.comp(st, 'ga.' + n), r)
# the ghost state of a schema: marked prepared, number of completed runs of its hook (1 or 0: kept as the two maps)
def prep(E, st, r): return V.b(E.getf(st, r, 'g!prepared'))
def runs(E, st, r): return V.i(E.getf(st, r, 'g!runs'))
def setg(E, st, r, p, n): E.setf(st, r, 'g!prepared', V.bool(p)); E.setf(st, r, 'g!runs', V.int(n))
def inv(E, st, r): p, n = prep(E, st, r), runs(E, st, r); return z3.And(z3.Or(n == 0, n == 1), p == (n == 1))
def typed(E, st, r): return z3.And(V.is_bool(E.getf(st, r, 'g!prepared')), V.is_int(E.getf(st, r, 'g!runs')))
def held(E, st): return cnt(E, st, 'held')
def hold(E, st, n): E.setcomp(st, 'gn.held', z3.simplify(n), None)
def others(E, c, st):
    """what other threads may have done by now to the shared schema, unless this thread holds the lock"""
    r = E.ref(c.cls); h = held(E, st); p0, n0 = prep(E, st, r), runs(E, st, r); p1, n1 = E.fresh(B, 'prepared'), E.fresh(I, 'runs')
    p, n = z3.If(h > 0, p0, p1), z3.If(h > 0, n0, n1); setg(E, st, r, p, n)
    st.pc = st.pc + (z3.Implies(h == 0, z3.And(z3.Or(n1 == 0, n1 == 1), p1 == (n1 == 1), z3.Implies(p0, z3.And(p1, n1 == n0)))),)
def known(E, c, st, o):
    """schemas: the shared one and those made here"""
    v = z3.simplify(E.to_v(o))
    if v.eq(z3.simplify(c.cls)): return True
    return any(v.eq(x) for x in c.own)
def env(E, c):
    c.own = []
    def lock(E, st, o):
        for x in E.cls_attr(st, Cls(META), '_lock', None): yield x
    E.iface['_lock'] = lock
    def acq(E, st, o, args, kw):
        s = st.clone(); E.oblige(s, 'the lock is the one all schemas share', E.to_v(o) == c.lock, 'post'); others(E, c, s); s2 = s.clone()
        hold(E, s, held(E, s) + 1); yield s, True
        if kw or (args and args != [True] and args != (True,)):     # may give up while another thread has it
            s2.pc = s2.pc + (held(E, s2) == 0,); yield s2, False
    def rel(E, st, o, args, kw):
        s = st.clone(); r = E.ref(c.cls); E.oblige(s, 'only a lock that is held is released', z3.And(E.to_v(o) == c.lock, held(E, s) > 0), 'post'); E.oblige(s, 'the schema is marked prepared exactly when its hook has completed, once', inv(E, s, r), 'post')
        hold(E, s, held(E, s) - 1); yield s, None
    E.icall['acquire'], E.icall['release'] = E.icall['__enter__'], E.icall['__exit__'] = acq, rel
    for q in LOCKS:
        for m in ('acquire', 'release', '__enter__', '__exit__'): E.iface[q + '.' + m] = lambda E, st, o, m=m: iter([(st, Meth(o, '@' + m))])
    def dct(E, st, o):
        if not known(E, c, st, o): raise Unsupported('__dict__ of something else')
        yield st, V.obj(E.uf('dict of', I, I)(E.ref(o)))
    E.iface['__dict__'] = dct
    def owner(E, o):
        v = z3.simplify(V.r(E.to_v(o)))
        if z3.is_app(v) and v.decl().name() == 'dict of': return v.arg(0)
        raise Unsupported('get of something else')
    def get(E, st, o, args, kw):
        a = E.from_v(args[0]); r = owner(E, o)
        if not (isinstance(a, str) and a == '_compound_prepared') or kw: raise Unsupported('another entry')
        s = st.clone(); others(E, c, s); yield s, V.bool(prep(E, s, r))
    E.icall['get'] = get
    def flag(E, st, o):         # each schema has a mark of its own from the start: __new__ below
        if not known(E, c, st, o): raise Unsupported('mark of something else')
        s = st.clone(); others(E, c, s); yield s, V.bool(prep(E, s, E.ref(o)))
    E.iface['_compound_prepared'] = flag
    def hook(E, st, o, args, kw):
        if not known(E, c, st, o): raise Unsupported('hook of something else')
        s = st.clone(); r = E.ref(o); private = z3.BoolVal(any(z3.simplify(E.to_v(o)).eq(x) for x in c.own))
        E.oblige(s, 'the hook is run under the lock, or on a schema no other thread knows', z3.Or(private, held(E, s) > 0), 'post')
        E.oblige(s, 'the hook is run only when it has not completed before', z3.And(z3.Not(prep(E, s, r)), runs(E, s, r) == 0), 'post')
        bad = s.clone(); rec(E, bad, 'raised', o); yield bad, Exc('Exception')                   # it may fail: then it has not completed
        setg(E, s, r, z3.BoolVal(True), runs(E, s, r) + 1); yield s, None
    E.icall['__compound_init__'] = hook
    def using(E, st, f, args, kw, star, starpos):
        if isinstance(f, Meth) and f.name == '@using' and not args and starpos is None:       # a new subclass, not prepared: C13 and __new__ below
            s = st.clone(); v = E.alloc(s); c.own.append(z3.simplify(v)); setg(E, s, E.ref(v), z3.BoolVal(False), z3.IntVal(0)); s.pc = s.pc + (typed(E, s, E.ref(v)),); rec(E, s, 'sub', f.o, v); yield s, v; return
        if isinstance(f, Meth) and f.name == '@__new__':
            s = st.clone(); v = E.alloc(s); rec(E, s, 'new', f.o, args[0], v); others(E, c, s)
            E.oblige(s, 'an element is made only of a prepared schema', z3.And(E.to_v(f.o) == E.to_v(args[0]), prep(E, s, E.ref(f.o)), runs(E, s, E.ref(f.o)) == 1), 'post'); c.els.append((z3.simplify(v), E.to_v(f.o))); yield s, v; return
        if isinstance(f, Meth) and f.name == '@__init__': s = st.clone(); rec(E, s, 'init', f.o); yield s, None; return
        raise Unsupported('starred call')
    c.els = []
    E.ext['starcall'] = using
    for m in ('using', '__new__', '__init__'):
        def plain(E, st, o, args, kw, m=m): return using(E, st, Meth(o, '@' + m), args, kw, None, None)
        E.icall[m] = plain
    def klass(E, st, o):
        v = z3.simplify(E.to_v(o))
        for x, k in c.els:
            if x.eq(v): yield st, k; return
        raise Unsupported('class of something else')
    E.iface['__class__'] = klass
    E.iface['hasattr'] = lambda E, st, o, name: iter([(st, V.bool(E.uf('has attribute', V, V, B)(E.to_v(o), E.to_v(name))))])
def setup(c, st):
    E = c.E; c.cls = c.obj(st, 'schema'); r = E.ref(c.cls); c.kw = c.dict(st, 'kw'); c.value = c.sym('value'); k = E.ref(c.kw); c.distinct(st, c.cls, c.kw); x = z3.Const('x!kw', V); E.textkeyed.append(k); c.assume(st, FA(x, z3.Implies(z3.Select(E.dom(st, k), x), V.is_str(x)), z3.Select(E.dom(st, k), x)))
    c.lock = E.to_v(next(iter(E.cls_attr(st, Cls(META), '_lock', None)))[1]); E.comp(st, 'gn.held'); h0 = held(E, st); c.assume(st, h0 >= 0); c.h0 = h0; c.assume(st, z3.And(typed(E, st, r), inv(E, st, r)))
    for t, n in (('sub', 2), ('new', 3), ('init', 1), ('raised', 1)): trace(c, st, t, n)
    return [c.cls, c.value], {}, c.kw
def post(c, st, r):
    E = c.E; k = E.ref(c.cls); out = [('the lock is released', held(E, st) == c.h0), ('the schema is marked prepared exactly when its hook has completed, once', inv(E, st, k)), ('it is not forgotten', z3.Implies(prep(E, c.st0, k), prep(E, st, k)))]
    if isexc(r): return out + [('only a failing hook (not %s)' % r.cls, z3.And(r.cls == 'Exception', cnt(E, st, 'raised') == 1))]
    used = E.ref(col(E, st, 'new', 0, 0)); return out + [('one element is made', z3.And(cnt(E, st, 'new') == 1, col(E, st, 'new', 2, 0) == E.to_v(r))), ('of a prepared schema: this one or one of its own', z3.And(prep(E, st, used), runs(E, st, used) == 1, z3.Or(used == k, z3.And(cnt(E, st, 'sub') == 1, col(E, st, 'sub', 0, 0) == c.cls, col(E, st, 'sub', 1, 0) == col(E, st, 'new', 0, 0)))))]
def inv_kw(L):
    E, c, st = L.E, L.c, L.st; r = E.ref(L.var('kw')); src = L.src; j = z3.Int('j!kw'); n, a = (src.n, src.arr) if isinstance(src, SeqVal) else (E.llen(st, E.ref(src)), E.larr(st, E.ref(src))); y = z3.Select(a, j)
    return [('bound', L.i <= n), ('the keywords to come are still there', FA(j, z3.Implies(z3.And(L.i <= j, j < n), z3.Select(E.dom(st, r), y)), y))]
# ---- the wrapped hook: runs the hook, and only then marks the schema
def env_w(E, c):
    def call(E, st, f, args, kw):
        if kw or not E.implied(st, E.to_v(f) == c.fn): raise Unsupported('call of something else')
        s = st.clone(); E.oblige(s, 'the hook runs before the mark is set', cnt(E, s, 'mark') == 0, 'post'); rec(E, s, 'run', args[0] if args else NIL, V.int(z3.IntVal(len(args))), c.res); yield s, c.res
        bad = st.clone(); rec(E, bad, 'raised', c.cls); yield bad, Exc('Exception')
    E.extcall = call
    c.own, c.classm = [], z3.Bool('is a classmethod')
    def isi(E, st, args, kw):
        if E.to_v(args[0]).eq(c.given) and getattr(args[1], 'q', None) == '__builtin__:classmethod': yield st, V.bool(c.classm)
        else: raise Unsupported('isinstance')
    E.ext['isinstance'] = isi
    def cm(E, st, args, kw): s = st.clone(); v = E.alloc(s); c.made.append((z3.simplify(v), E.from_v(args[0]))); yield s, v
    E.ext['classmethod'] = E.ext['__builtin__.classmethod'] = cm; E.ext['functools.update_wrapper'] = E.ext['update_wrapper'] = lambda E, st, args, kw: iter([(st, args[0])])
    def bound(E, st, o, args, kw):
        if not E.to_v(o).eq(c.given): raise Unsupported('__get__')
        yield st, V.obj(z3.Const('in_bound', I))
    E.icall['__get__'] = bound; E.iface['__func__'] = E.iface['im_func'] = lambda E, st, o: iter([(st, c.inner)])
    def mark(E, st, o, v): s = st.clone(); rec(E, s, 'mark', o, v); yield s, None
    E.iface['_compound_prepared='] = mark
def setup_w(c, st):
    E = c.E; c.cls, c.given, c.inner = c.obj(st, 'schema'), c.obj(st, 'hook'), c.obj(st, 'hook_inside'); c.distinct(st, c.cls, c.given, c.inner); c.fn = z3.simplify(z3.If(c.classm, c.inner, c.given)); c.made = []
    c.res = c.sym('result'); c.assume(st, c.res != ABSENT)
    for t, n in (('run', 3), ('mark', 2), ('raised', 1)): trace(c, st, t, n)
    return [c.given]
def post_wrap(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; f = [g for v, g in c.made if v.eq(z3.simplify(E.to_v(r)))]
    if not f: return [('a classmethod is given back', False)]
    ver, E.verifying = E.verifying, None
    for s, x in E.call(st, f[-1], [c.cls], {}, None):
        for n, g in post_w(c, s, x): E.oblige(s, 'called: ' + n, g, 'post')
    E.verifying = ver
    return [('nothing runs before it is called', z3.And(cnt(E, st, 'run') == 0, cnt(E, st, 'mark') == 0))]
def post_w(c, st, r):
    E = c.E; m = cnt(E, st, 'mark')
    if isexc(r): return [('only a failing hook', cnt(E, st, 'raised') == 1), ('a schema whose hook failed is not marked', m == 0)]
    return [('the hook runs once, on the schema', z3.And(cnt(E, st, 'run') == 1, col(E, st, 'run', 0, 0) == c.cls, col(E, st, 'run', 1, 0) == V.int(1))), ('then the schema itself is marked', z3.And(m == 1, col(E, st, 'mark', 0, 0) == c.cls, T(E, st, col(E, st, 'mark', 1, 0)))), ('and the result of the hook is given back', E.to_v(r) == c.res)]
# ---- a new schema class: not prepared yet, its own hook wrapped
def env_n(E, c):
    def wrap(E, st, b, f): s = st.clone(); v = E.uf('wrapped hook', V, V)(E.to_v(b['fn'])); s.pc = s.pc + (z3.And(V.is_obj(v), V.r(v) > 0),); yield s, v
    E.contracts[M_ + ':_wrap_compound_init'] = wrap
    def new(E, st, args, kw):
        if len(args) != 4 or kw: raise Unsupported('type.__new__')
        s = st.clone(); v = E.alloc(s); m = E.ref(args[3]); rec(E, s, 'type', args[0], args[1], args[2], v); c.dom, c.map = E.dom(s, m), E.dmap(s, m); yield s, v
    E.ext['type.__new__'] = E.ext['__builtin__.type.__new__'] = new
def setup_n(c, st):
    c.meta = c.obj(st, 'metaclass'); c.name, c.bases = c.sym('name'), c.sym('bases'); c.members = c.dict(st, 'members'); c.distinct(st, c.meta, c.members); r = c.E.ref(c.members); c.d0, c.m0 = c.E.dom(st, r), c.E.dmap(st, r); trace(c, st, 'type', 4); return [c.meta, c.name, c.bases, c.members]
def post_n(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; x = z3.Const('x!m', V); P_, H = V.str(z3.StringVal('_compound_prepared')), V.str(z3.StringVal('__compound_init__')); a = lambda k: col(E, st, 'type', k, 0)
    return [('one class is made, as asked', z3.And(cnt(E, st, 'type') == 1, a(0) == c.meta, a(1) == c.name, a(2) == c.bases, a(3) == E.to_v(r))), ('it is marked as not prepared itself', z3.And(z3.Select(c.dom, P_), z3.Or([z3.Select(c.map, P_) == x for x in (FALSE, NONE, V.int(0))]))),
            ('a hook of its own is wrapped', z3.Implies(z3.Select(c.d0, H), z3.And(z3.Select(c.dom, H), z3.Select(c.map, H) == E.uf('wrapped hook', V, V)(z3.Select(c.m0, H))))), ('and it gets none otherwise', z3.Implies(z3.Not(z3.Select(c.d0, H)), z3.Not(z3.Select(c.dom, H)))),
            ('all other members are as given', FA(x, z3.Implies(z3.And(x != P_, x != H), z3.And(z3.Select(c.dom, x) == z3.Select(c.d0, x), z3.Implies(z3.Select(c.d0, x), z3.Select(c.map, x) == z3.Select(c.m0, x)))), z3.Select(c.map, x)))]
def contracts(P):
    return [Contract('_MetaCompound.__call__', META + '.__call__', setup, post, env=env, loops=[LoopSpec('keywords', inv_kw)]),
            Contract('_wrap_compound_init', M_ + ':_wrap_compound_init', setup_w, post_wrap, env=env_w), Contract('_MetaCompound.__new__', META + '.__new__', setup_n, post_n, env=env_n)]
ASSUMPTIONS = ['the lock (threading.RLock) excludes other threads and reading or writing one class attribute is atomic', 'other threads run the hook only through the construction contract proved here (rely: what they leave when they do not hold the lock satisfies the invariant; a prepared schema stays prepared)',
               'using() gives a new schema no other thread knows, not prepared (proved: _MetaCompound.__new__; C13)', '_wrap_compound_init gives the class the wrapped function proved here']
