"""C15: the stack of settings."""
from common import *
G, M_, U_ = 'flatland.out.generic', 'flatland.out.markup', 'flatland.out.util'
def top(c, st): E = c.E; return V.r(z3.simplify(z3.Select(E.larr(st, c.fr), E.llen(st, c.fr) - 1)))
def world(c, st, cls=M_ + ':Generator'):
    """a context with its stack of at least one frame: existing dictionaries, no two the same"""
    E = c.E; c.me = c.obj(st, 'context', cls); c.frames = c.list(st, 'frames'); c.distinct(st, c.me, c.frames); c.fr = E.ref(c.frames); E.setf(st, E.ref(c.me), '_frames', c.frames)
    c.n, c.arr = E.llen(st, c.fr), E.larr(st, c.fr); j = z3.Int('j!'); x = z3.Const('x!', V); f = lambda j: z3.Select(c.arr, j); pos = E.uf('position_of_frame', I, I); c.pos = pos
    c.assume(st, z3.And(c.n >= 1, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(f(j)), V.r(f(j)) > 0, pos(V.r(f(j))) == j, V.r(f(j)) != E.ref(c.me), V.r(f(j)) != c.fr)), f(j))))
    c.top = V.r(f(c.n - 1)); E.setclass(st, E.lget(st, c.fr, c.n - 1), '__builtin__:dict'); E.setclass(st, z3.Select(c.arr, c.n - 1), '__builtin__:dict'); E.setclass(st, E.lget(st, c.fr, z3.IntVal(0)), '__builtin__:dict'); E.setclass(st, z3.Select(c.arr, 0), '__builtin__:dict')
    c.assume(st, z3.And(V.is_obj(f(c.n - 1)), c.top > 0, c.top != E.ref(c.me), c.top != c.fr))
    c.d, c.m = E.dom(st, c.top), E.dmap(st, c.top); c.assume(st, FA(x, z3.Select(c.m, x) != ABSENT, z3.Select(c.m, x)))
def options(c, st, name='options'):
    """an arbitrary dictionary of keyword arguments"""
    E = c.E; o = c.dict(st, name); E.textkeyed.append(E.ref(o)); c.assume(st, z3.And(E.ref(o) != c.top, E.ref(o) != c.fr, E.ref(o) != E.ref(c.me))); j = z3.Int('j!')
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), V.r(z3.Select(c.arr, j)) != E.ref(o)), z3.Select(c.arr, j)))
    d, m = E.dom(st, E.ref(o)), E.dmap(st, E.ref(o)); x = z3.Const('x!', V)
    c.assume(st, z3.And(FA(x, z3.Implies(z3.Select(d, x), V.is_str(x)), z3.Select(d, x)), FA(x, z3.Select(m, x) != ABSENT, z3.Select(m, x)))); return o, d, m
def samestack(c, st, n=None):
    """the stack is as it was (its first n frames)"""
    E = c.E; j = z3.Int('j!s'); n = c.n if n is None else n
    return z3.And(E.getf(st, E.ref(c.me), '_frames') == c.frames, E.llen(st, c.fr) == n, FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(E.larr(st, c.fr), j) == z3.Select(c.arr, j)), z3.Select(E.larr(st, c.fr), j)))
def nochange(c, st, *refs): return [framed(c, st, n, *refs) for n in ('dom', 'map')]
def overlay(d, m, od, om, x): return z3.Or(z3.Select(d, x), z3.Select(od, x)), z3.If(z3.Select(od, x), z3.Select(om, x), z3.Select(m, x))
def allowed(d, od): x = z3.Const('x!al', V); return FA(x, z3.Implies(z3.Select(od, x), z3.Select(d, x)), z3.Select(od, x))
# ---- reading and item assignment
def setup_get(c, st): world(c, st); c.k = c.sym('key'); return [c.me, c.k]
def post_get(c, st, res):
    has = z3.Select(c.d, c.k)
    if isexc(res): r = [('KeyError exactly for an unknown setting', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(has)))]
    else: r = [('the innermost frame is what is read', z3.And(has, c.E.to_v(res) == z3.Select(c.m, c.k)))]
    return r + [('nothing changes', samestack(c, st))] + nochange(c, st)
def post_has(c, st, res):
    if isexc(res): return [('no exception', False)]
    return [('known settings', c.E.to_v(res) == V.bool(z3.Select(c.d, c.k))), ('nothing changes', samestack(c, st))] + nochange(c, st)
def setup_put(c, st): world(c, st); c.k = c.sym('key'); c.v = c.sym('value'); c.assume(st, c.v != ABSENT); return [c.me, c.k, c.v]
def post_put(c, st, res):
    E = c.E; has = z3.Select(c.d, c.k)
    if isexc(res): return [('KeyError exactly for an unknown setting', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(has))), ('nothing changes', samestack(c, st))] + nochange(c, st)
    return [('a known setting', has), ('only that setting of the innermost frame changes', z3.And(E.dom(st, c.top) == c.d, E.dmap(st, c.top) == z3.Store(c.m, c.k, c.v))), ('the stack stays', samestack(c, st))] + nochange(c, st, c.top)
# ---- update
def inv_over(L, d0, m0, od, om, t):
    """after i of the keys: those are known and overlaid on the frame t, the rest is untouched"""
    E, c, st = L.E, L.c, L.st; n, ks, ix = E.last_dict_order; x = z3.Const('x!i', V); d, m = E.dom(st, t), E.dmap(st, t); done = z3.And(z3.Select(od, x), z3.Select(ix, x) < L.i)
    return [('bound', L.i <= n), ('the keys so far are known settings', FA(x, z3.Implies(done, z3.Select(d0, x)), z3.Select(ix, x))), ('no key is added', FA(x, z3.Select(d, x) == z3.Select(d0, x), z3.Select(d, x), z3.Select(d0, x))),
            ('the keys so far have their new value, the others their old one', FA(x, z3.Select(m, x) == z3.If(done, z3.Select(om, x), z3.Select(m0, x)), z3.Select(m, x), z3.Select(m0, x))),
            ('the stack stays', samestack(c, st))]
def post_update(c, st, res, od, om, d0=None, m0=None):
    E = c.E; d0, m0 = (c.d, c.m) if d0 is None else (d0, m0); x = z3.Const('x!p', V); d, m = E.dom(st, c.top), E.dmap(st, c.top)
    keep = [('the stack stays', samestack(c, st))] + nochange(c, st, c.top)
    if isexc(res): return [('KeyError exactly for unknown settings', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(allowed(d0, od)))), ('no setting is added', FA(x, z3.Select(d, x) == z3.Select(d0, x), z3.Select(d, x)))] + keep
    return [('all are known settings', allowed(d0, od)), ('every given setting has its value in the innermost frame, the others keep theirs', FA(x, z3.And(z3.Select(d, x) == z3.Select(d0, x), z3.Select(m, x) == z3.If(z3.Select(od, x), z3.Select(om, x), z3.Select(m0, x))), z3.Select(m, x), z3.Select(d, x)))] + keep
def setup_upd(c, st): world(c, st); c.o, c.od, c.om = options(c, st); return [c.me], {}, c.o
def post_upd(c, st, res): return post_update(c, st, res, c.od, c.om)
def inv_upd(L): return inv_over(L, L.c.d, L.c.m, L.c.od, L.c.om, L.c.top)
# ---- push / pop, begin / end by the contract of update
def env_push(E, c):
    def update(E, st, b, f):
        t = top(c, st); d0, m0 = E.dom(st, t), E.dmap(st, t)
        if E.from_v(b['iterable']) is not None and E.from_v(b['iterable']).items: od, om = (g(st, E.ref(E.to_v(E.from_v(b['iterable']).items[0]))) for g in (E.dom, E.dmap))
        else: od, om = (g(st, E.ref(E.to_v(b['kwargs']))) for g in (E.dom, E.dmap))
        x = z3.Const('x!u', V); s = st.clone(); s.pc = s.pc + (allowed(d0, od),); nm = E.fresh(MAP, 'updated')
        s.pc = s.pc + (FA(x, nm[x] == z3.If(z3.Select(od, x), z3.Select(om, x), z3.Select(m0, x)), z3.Select(nm, x)),); E.dset(s, t, d0, nm); yield s, None
        s = st.clone(); s.pc = s.pc + (z3.Not(allowed(d0, od)),); E.dset(s, t, d0, E.fresh(MAP, 'partial')); yield s, Exc('KeyError')
    E.contracts[G + ':Context.update'] = update
    c.wrap = E.uf('wrapped', V, V, V); E.extcall = lambda E, st, f, args, kw: iter([(st, c.wrap(E.to_v(f), E.to_v(args[0])))])
def setup_push(c, st):
    world(c, st); c.o, c.od, c.om = options(c, st); c.assume(st, z3.Select(c.d, sv('markup_wrapper'))); return [c.me], {}, c.o
def pushed(c, st):
    E = c.E; t = top(c, st); x = z3.Const('x!p', V); d, m = E.dom(st, t), E.dmap(st, t); j = z3.Int('j!s')
    return [('one new innermost frame, the others stay in place', z3.And(E.llen(st, c.fr) == c.n + 1, t < 0, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.Select(E.larr(st, c.fr), j) == z3.Select(c.arr, j)), z3.Select(c.arr, j)))),
            ('given settings are in effect, the others as in the scope outside', FA(x, z3.And(z3.Select(d, x) == z3.Select(c.d, x), z3.Select(m, x) == z3.If(z3.Select(c.od, x), z3.Select(c.om, x), z3.Select(c.m, x))), z3.Select(m, x), z3.Select(d, x))), ('only known settings', allowed(c.d, c.od))] + nochange(c, st)
def post_push(c, st, res):
    if isexc(res): return [('KeyError exactly for unknown settings', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(allowed(c.d, c.od)))), ('a refused scope leaves the stack as it was', samestack(c, st))] + nochange(c, st)
    return pushed(c, st)
def post_begin(c, st, res):
    if isexc(res): return post_push(c, st, res)
    E = c.E; w = sv('markup_wrapper'); return pushed(c, st) + [('renders as nothing', E.to_v(res) == c.wrap(z3.If(z3.Select(c.od, w), z3.Select(c.om, w), z3.Select(c.m, w)), sv('')))]
def setup_pop(c, st): world(c, st); return [c.me]
def popped(c, st): return [('the innermost frame goes, the others stay', samestack(c, st, c.n - 1))] + nochange(c, st)
def post_pop(least):
    def post(c, st, res):
        if isexc(res): return [('refused exactly at the outermost scope', z3.And(z3.BoolVal(res.cls == 'RuntimeError'), c.n == least)), ('nothing changes', samestack(c, st))] + nochange(c, st)
        return [('not at the outermost scope', c.n > least)] + popped(c, st)
    return post
def setup_end(c, st):
    world(c, st); E = c.E; j = z3.Int('j!')
    c.assume(st, c.n >= 2); below = E.lget(st, c.fr, c.n - 2); E.setclass(st, below, '__builtin__:dict'); E.setclass(st, z3.Select(c.arr, c.n - 2), '__builtin__:dict')
    for k in (c.n - 2,): c.assume(st, z3.Select(E.dom(st, V.r(z3.Select(c.arr, k))), sv('markup_wrapper')))
    return [c.me]
# ---- set
def env_set(E, c):
    env_push(E, c); c.trool = E.uf('trool', V, V)
    def pt(E, st, b, f):
        v = c.trool(E.to_v(b['value'])); st.pc = st.pc + (v != ABSENT,); yield st, v
    E.contracts[U_ + ':parse_trool'] = pt
def final(c, st): x = z3.Const('x!', V); return z3.Lambda([x], z3.If(z3.And(V.is_str(x), z3.PrefixOf(z3.StringVal('auto_'), V.s(x))), c.trool(z3.Select(c.om, x)), z3.Select(c.om, x)))
def setup_set(c, st): world(c, st); c.assume(st, z3.Select(c.d, sv('markup_wrapper'))); c.o, c.od, c.om = options(c, st); c.fm = final(c, st); return [c.me], {}, c.o
def inv_set(L): return inv_over(L, L.c.d, L.c.m, L.c.od, L.c.fm, L.c.top)
def post_set(c, st, res):
    if isexc(res):
        E = c.E; x = z3.Const('x!p', V); d = E.dom(st, c.top)
        return [('refused exactly for unknown settings', z3.And(z3.BoolVal(res.cls in ('TypeError', 'KeyError')), z3.Not(allowed(c.d, c.od)))), ('no setting is added', FA(x, z3.Select(d, x) == z3.Select(c.d, x), z3.Select(d, x))), ('the stack stays', samestack(c, st))] + nochange(c, st, c.top)
    return post_update(c, st, res, c.od, c.fm)
# ---- update(pairs or mapping): one after the other
def env_up2(E, c): E.contracts['flatland.util.base:to_pairs'] = lambda E, st, b, f: iter([(st, c.pairs)])
def setup_up2(c, st):
    world(c, st); E = c.E; c.src = c.sym('source'); c.pairs = c.list(st, 'pairs'); c.after = E.uf('settings_after', I, MAP); j = z3.Int('j!'); c.np, c.pa = E.llen(st, E.ref(c.pairs)), E.larr(st, E.ref(c.pairs))
    p = lambda j: z3.Select(c.pa, j); c.k = lambda j: V.hd(p(j)); c.v = lambda j: V.hd(V.tl(p(j))); c.distinct(st, c.pairs, c.frames, c.me, V.obj(c.top))
    c.assume(st, z3.And(c.after(0) == c.m, FA(j, z3.Implies(z3.And(0 <= j, j < c.np), z3.And(V.is_cons(p(j)), V.is_cons(V.tl(p(j))), V.tl(V.tl(p(j))) == NIL, c.v(j) != ABSENT, c.after(j + 1) == z3.Store(c.after(j), c.k(j), c.v(j)))), p(j)))); return [c.me, c.src]
def known(c, i): j = z3.Int('j!k'); return FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.Select(c.d, c.k(j))), z3.Select(c.pa, j))
def inv_up2(L, i=None): E, c, st = L.E, L.c, L.st; i = L.i if i is None else i; return [('bound', i <= c.np), ('the keys so far are known settings', known(c, i)), ('assigned one after the other', z3.And(E.dom(st, c.top) == c.d, E.dmap(st, c.top) == c.after(i))), ('the stack stays', samestack(c, st))]
def post_up2(c, st, res):
    E = c.E; keep = [('the stack stays', samestack(c, st)), ('no setting is added', E.dom(st, c.top) == c.d)] + nochange(c, st, c.top)
    if isexc(res): return [('KeyError exactly for unknown settings', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(known(c, c.np))))] + keep
    return [('all are known settings', known(c, c.np)), ('assigned one after the other', E.dmap(st, c.top) == c.after(c.np))] + keep
def setup_two(c, st): world(c, st); return [c.me, c.sym('a'), c.sym('b')]
def post_two(c, st, res): return [('two sources are refused with TypeError', z3.BoolVal(isexc(res, 'TypeError'))), ('nothing changes', samestack(c, st))] + nochange(c, st)
# ---- a new generator: the defaults outside, its settings in the scope inside
KNOWN = ('auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex', 'auto_filter', 'tabindex', 'domid_format', 'filters', 'markup_wrapper', 'ordered_attributes')
def env_new(E, c):
    E.ext['collections.defaultdict'] = E.ext['_collections.defaultdict'] = E.ext['defaultdict'] = lambda E, st, a, k: iter([(st, c.tags)])
    for q in ('collections:defaultdict', '_collections:defaultdict', 'org.python.modules._collections:defaultdict'): E.ext['new:' + q] = lambda E, st, a, k: iter([(st, c.tags)])
    def update(E, st, b, f):
        l = E.ref(E.getf(st, E.ref(c.me), '_frames')); t = V.r(z3.simplify(z3.Select(E.larr(st, l), E.llen(st, l) - 1))); t = z3.simplify(t); d0, m0 = E.dom(st, t), E.dmap(st, t); it = E.from_v(b['iterable'])
        o = E.ref(E.to_v(it.items[0])) if it.items else E.ref(E.to_v(b['kwargs'])); od, om = E.dom(st, o), E.dmap(st, o)
        x = z3.Const('x!u', V); s = st.clone(); s.pc = s.pc + (allowed(d0, od),); nm = E.fresh(MAP, 'updated')
        s.pc = s.pc + (FA(x, nm[x] == z3.If(z3.Select(od, x), z3.Select(om, x), z3.Select(m0, x)), z3.Select(nm, x)),); E.dset(s, t, d0, nm); yield s, None
        s = st.clone(); s.pc = s.pc + (z3.Not(allowed(d0, od)),); E.dset(s, t, d0, E.fresh(MAP, 'partial')); yield s, Exc('KeyError')
    E.contracts[G + ':Context.update'] = update
def setup_new(kind):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'generator', M_ + ':Generator'); c.tags = c.obj(st, 'tags'); c.o = c.dict(st, 'settings'); c.t1, c.t2 = table(c, st, G, '_default_context'), table(c, st, M_, '_default_settings')
        c.distinct(st, c.me, c.tags, c.o, *c.tables); c.od, c.om = E.dom(st, E.ref(c.o)), E.dmap(st, E.ref(c.o)); x = z3.Const('x!', V); c.assume(st, FA(x, z3.Implies(z3.Select(c.od, x), z3.And(V.is_str(x), x != sv('markup'))), z3.Select(c.od, x)))
        if kind is None: c.mk = c.sym('markup'); c.assume(st, z3.And([c.mk != sv(k) for k in ('html', 'xhtml', 'xml')] + [V.is_str(c.mk)])); return [c.me, c.mk], {}, c.o
        return [c.me, V.str(z3.StringVal(kind))], {}, c.o
    return f
def post_new(kind):
    def post(c, st, res):
        E = c.E; x = z3.Const('x!p', V); known = z3.Or([x == sv(k) for k in KNOWN]); ok = FA(x, z3.Implies(z3.Select(c.od, x), known), z3.Select(c.od, x))
        if kind is None: return [('an unknown markup type is refused', z3.BoolVal(isexc(res, 'TypeError')))]
        if isexc(res): return [('KeyError exactly for unknown settings', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(ok)))]
        l = E.ref(E.getf(st, E.ref(c.me), '_frames')); f = lambda k: z3.simplify(V.r(z3.simplify(z3.Select(E.larr(st, l), k)))); d = lambda k: E.dom(st, f(k)); m = lambda k: E.dmap(st, f(k)); a, b = E.ref(c.t1), E.ref(c.t2)
        m1, m2, d2 = E.dmap(c.st0, a), E.dmap(c.st0, b), E.dom(c.st0, b); base = z3.If(z3.Select(d2, x), z3.Select(m2, x), z3.Select(m1, x))
        return [('two frames, neither of them shared', z3.And(E.llen(st, l) == 2, l < 0, f(0) < 0, f(1) < 0, f(0) != f(1))), ('only known settings', ok), ('exactly the documented settings exist', z3.And(FA(x, z3.And(z3.Select(d(0), x) == known, z3.Select(d(1), x) == known), z3.Select(d(0), x), z3.Select(d(1), x)))),
                ('the defaults outside', FA(x, z3.Implies(known, z3.Select(m(0), x) == base), z3.Select(m(0), x))), ('the settings given inside', FA(x, z3.Implies(known, z3.Select(m(1), x) == z3.If(z3.Select(c.od, x), z3.Select(c.om, x), base)), z3.Select(m(1), x))),
                ('markup style', E.getf(st, E.ref(c.me), 'xml') == V.bool(kind != 'html'))] + nochange(c, st)
    return post
def contracts(P):
    C = lambda n, t, s, p, e=None, **k: Contract(n, t, s, p, env=e, **k); K = G + ':Context.'
    return [C('Context[key]', K + '__getitem__', setup_get, post_get), C('key in Context', K + '__contains__', setup_get, post_has), C('Context[key] = value', K + '__setitem__', setup_put, post_put),
            C('update(**options)', K + 'update', setup_upd, post_upd, loops=[LoopSpec('options', inv_upd, kind='For')]), C('update(source)', K + 'update', setup_up2, post_up2, env_up2, loops=[LoopSpec('pairs', inv_up2, kind='For', match=lambda E, st, fr, node, src: isinstance(src, z3.ExprRef)), LoopSpec('keywords', lambda L: inv_up2(L, L.c.np), kind='For', match=lambda E, st, fr, node, src: not isinstance(src, z3.ExprRef))]), C('update(two sources)', K + 'update', setup_two, post_two),
            C('push', K + 'push', setup_push, post_push, env_push), C('pop', K + 'pop', setup_pop, post_pop(1)),
            C('begin', M_ + ':Generator.begin', setup_push, post_begin, env_push), C('end', M_ + ':Generator.end', setup_end, post_pop(2), env_push),
            C('set', M_ + ':Generator.set', setup_set, post_set, env_set, loops=[LoopSpec('settings', inv_set, kind='For')])] + \
           [C('Generator(%s)' % k, M_ + ':Generator.__init__', setup_new(k), post_new(k), env_new) for k in ('html', 'xhtml', 'xml', None)]
ASSUMPTIONS = ['frames are distinct dictionaries, none of them shared with a caller (established by Generator() and push, kept by every operation under contract)', 'the markup wrapper is an arbitrary function']
