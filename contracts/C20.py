"""C20: keyslice_pairs, and the operations built on it."""
from common import *
U_, C_ = 'flatland.util.base', 'flatland.schema.containers'
A = lambda c, st, n: c.E.comp(st, n)
def inlist(n, arr, x):
    j = z3.Int('j!m'); return z3.Not(FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) != x), z3.Select(arr, j)))
def env(E, c):
    c.kf = E.uf('keyfunc', V, V); c.C = E.uf('emitted_before', I, I)
    E.extcall = lambda E, st, f, args, kw: iter([(st, c.kf(E.to_v(args[0])))])
    E.contracts[U_ + ':to_pairs'] = lambda E, st, b, f: iter([(st, E.to_v(b['dictlike']))])      # dict(to_pairs(d)) == dict(d)
def setup(how):
    def f(c, st):
        E = c.E; c.pairs = c.list(st, 'pairs'); c.n, c.arr = E.llen(st, E.ref(c.pairs)), E.larr(st, E.ref(c.pairs)); j = z3.Int('j!')
        c.k = lambda j: V.hd(z3.Select(c.arr, j)); c.v = lambda j: V.hd(V.tl(z3.Select(c.arr, j)))
        c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_cons(z3.Select(c.arr, j)), V.is_cons(V.tl(z3.Select(c.arr, j))), V.tl(V.tl(z3.Select(c.arr, j))) == NIL, V.is_str(c.k(j)), c.v(j) != ABSENT)), z3.Select(c.arr, j)))
        c.inc, c.om = c.list(st, 'include') if how['include'] else None, c.list(st, 'omit') if how['omit'] else None
        c.ren = c.dict(st, 'rename') if how['rename'] else None; c.key = c.obj(st, 'key') if how['key'] else None
        c.distinct(st, *[x for x in (c.pairs, c.inc, c.om, c.ren, c.key) if x is not None])
        if c.key is not None: c.assume(st, T(E, st, c.key)); x = z3.Const('x!', V); c.assume(st, FA(x, V.is_str(c.kf(x)), c.kf(x)))
        L = lambda x: (E.llen(st, E.ref(x)), E.larr(st, E.ref(x)))
        key = lambda j: c.kf(c.k(j)) if c.key is not None else c.k(j)
        filt = lambda k: z3.BoolVal(True)
        li, lo = (L(x) if x is not None else (z3.IntVal(0), None) for x in (c.inc, c.om))
        if c.inc is not None and c.om is not None: filt = lambda k: z3.If(li[0] > 0, inlist(*li, k), z3.If(lo[0] > 0, z3.Not(inlist(*lo, k)), True))
        elif c.inc is not None: filt = lambda k: z3.If(li[0] > 0, inlist(*li, k), True)
        elif c.om is not None: filt = lambda k: z3.If(lo[0] > 0, z3.Not(inlist(*lo, k)), True)
        c.bothgiven = z3.And(li[0] > 0, lo[0] > 0)
        if c.ren is not None:
            d, m = E.dom(st, E.ref(c.ren)), E.dmap(st, E.ref(c.ren)); x = z3.Const('x!', V)
            c.assume(st, FA(x, z3.Select(m, x) != ABSENT, z3.Select(m, x)))
            c.isren = lambda k: z3.Select(d, k); c.newkey = lambda k: z3.If(c.isren(k), z3.Select(m, k), k)
        else: c.isren = lambda k: z3.BoolVal(False); c.newkey = lambda k: k
        c.emit = lambda j: z3.Or(c.isren(key(j)), filt(key(j))); c.out = lambda j: V.cons(c.newkey(key(j)), V.cons(c.v(j), NIL))
        # emitted_before(i) counts the selected pairs among the first i (its definition by recursion)
        c.assume(st, z3.And(c.C(0) == 0, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), c.C(j + 1) == c.C(j) + z3.If(c.emit(j), 1, 0)), (c.C(j), z3.Select(c.arr, j)))))
        args = [c.pairs] + [None if x is None else x for x in (c.inc, c.om, c.ren, c.key)]
        return args
    return f
def made(c, st, ref, i):
    E = c.E; n, a = E.llen(st, ref), E.larr(st, ref); j = z3.Int('j!o')
    return [('as many pairs as are selected', n == c.C(i)), ('counts', FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.And(0 <= c.C(j), c.C(j) <= c.C(i), z3.Implies(c.emit(j), c.C(j) < c.C(i)))), c.C(j))),
            ('each selected pair in its place, under its new key', FA(j, z3.Implies(z3.And(0 <= j, j < i, c.emit(j)), z3.Select(a, c.C(j)) == c.out(j)), c.C(j), z3.Select(c.arr, j)))]
def inv(L): return [('bound', L.i <= L.c.n)] + made(L.c, L.st, L.out, L.i)
def post(c, st, res):
    if isexc(res): return [('only include together with omit is refused, with TypeError', z3.And(z3.BoolVal(res.cls == 'TypeError'), c.bothgiven))]
    return [('not both include and omit', z3.Not(c.bothgiven))] + made(c, st, c.E.ref(res), c.n)
# ---- update_object: exactly the items of the slice are set, on the object given
def env_up(E, c):
    def sl(E, st, b, f):
        st = st.clone(); rec(E, st, 'slice', *[b[k] for k in ('include', 'omit', 'rename', 'key')]); yield st, c.data
    E.contracts[C_ + ':Dict.slice'] = sl
    def sa(E, st, a):
        st = st.clone(); rec(E, st, 'set', *a[:3]); yield st, None
    E.iface['setattr'] = sa
def setup_up(c, st):
    E = c.E; c.me = c.obj(st, 'element', C_ + ':Dict'); c.o = c.obj(st, 'object'); c.data = c.dict(st, 'data'); c.distinct(st, c.me, c.o, c.data)
    trace(c, st, 'slice', 4); trace(c, st, 'set', 3); c.args = [c.sym(k) for k in ('include', 'omit', 'rename', 'key')]
    c.d, c.m = E.dom(st, E.ref(c.data)), E.dmap(st, E.ref(c.data)); return [c.me, c.o] + c.args
def sets(c, st, ks, i):
    E = c.E; j = z3.Int('j!s'); x = lambda k: col(E, st, 'set', k, j)
    return [('one assignment per item so far', cnt(E, st, 'set') == i), ('of its value, on the object', FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.And(x(0) == c.o, x(1) == z3.Select(ks, j), x(2) == z3.Select(c.m, z3.Select(ks, j)))), z3.Select(ks, j)))]
def inv_up(L):
    o = getattr(L.E, 'last_dict_order', None)
    if o is None: raise SpecMismatch('not a loop over the slice')
    return [('the slice is taken once', z3.And(cnt(L.E, L.st, 'slice') == 1, L.i <= o[0]))] + sets(L.c, L.st, o[1], L.i)
def post_up(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; n, ks, ix = E.last_dict_order; x = z3.Const('x!p', V); j, j2 = z3.Ints('j!p j2!p'); a = lambda k, j: col(E, st, 'set', k, j); N = cnt(E, st, 'set')
    return [('the slice is asked for with the same filters', z3.And([cnt(E, st, 'slice') == 1] + [col(E, st, 'slice', k, 0) == E.to_v(y) for k, y in enumerate(c.args)])),
            ('only items of the slice are set, on the object, to their values', FA(j, z3.Implies(z3.And(0 <= j, j < N), z3.And(a(0, j) == c.o, z3.Select(c.d, a(1, j)), a(2, j) == z3.Select(c.m, a(1, j)))), z3.Select(ks, j))),
            ('every item is set', FA(x, z3.Implies(z3.Select(c.d, x), z3.And(z3.Select(ix, x) >= 0, z3.Select(ix, x) < N, a(1, z3.Select(ix, x)) == x)), z3.Select(ix, x)))]
# ---- slice: keyslice_pairs over exactly the (key, value) pairs of the mapping
def env_sl(E, c):
    frozen(E, 'value')
    def ks(E, st, b, f):
        for s, l in E.collect(st, b['pairs'], None):
            if isinstance(l, Exc): yield s, l; continue
            s = s.clone(); rec(E, s, 'ks', l, *[b[k] for k in ('include', 'omit', 'rename', 'key')]); yield s, c.answer      # stands for the pairs of this dict
    E.contracts[U_ + ':keyslice_pairs'] = ks
def setup_sl(c, st):
    E = c.E; c.me = c.dict(st, 'element', C_ + ':Dict'); c.answer = c.dict(st, 'answer'); c.distinct(st, c.me, c.answer); trace(c, st, 'ks', 5)
    c.args = [c.sym(k) for k in ('include', 'omit', 'rename', 'key')]; r = E.ref(c.me); c.d, c.m = E.dom(st, r), E.dmap(st, r); x = z3.Const('x!', V)
    c.assume(st, FA(x, z3.And(V.is_obj(z3.Select(c.m, x)), V.r(z3.Select(c.m, x)) > 0, E.uf('attr_value', I, V)(V.r(z3.Select(c.m, x))) != ABSENT), z3.Select(c.m, x)))
    return [c.me] + c.args
def post_sl(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; l = V.r(col(E, st, 'ks', 0, 0)); n, a = E.llen(st, l), E.larr(st, l); N, ks, ix = E.last_dict_order; j = z3.Int('j!p'); x = z3.Const('x!p', V)
    e = lambda k: V.r(z3.Select(c.m, k)); r = E.ref(res)
    return [('the filters are passed on', z3.And([cnt(E, st, 'ks') == 1] + [col(E, st, 'ks', k + 1, 0) == E.to_v(y) for k, y in enumerate(c.args)])),
            ('over the (key, value) pairs of the mapping, each once', z3.And(n == N, FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, j) == V.cons(z3.Select(ks, j), V.cons(E.uf('attr_value', I, V)(e(z3.Select(ks, j))), NIL))), z3.Select(ks, j)))),
            ('as a new plain dict', z3.And(r < 0, FA(x, z3.Select(E.dom(st, r), x) == z3.Select(E.dom(c.st0, E.ref(c.answer)), x)), FA(x, z3.Implies(z3.Select(E.dom(st, r), x), z3.Select(E.dmap(st, r), x) == z3.Select(E.dmap(c.st0, E.ref(c.answer)), x)))))]
def contracts(P):
    out = []
    for i, o, r, k in ((1, 1, 1, 1), (0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 1), (0, 1, 1, 0), (1, 0, 1, 1)):
        how = {'include': i, 'omit': o, 'rename': r, 'key': k}
        out.append(Contract('keyslice_pairs(%s)' % ', '.join(x for x in how if how[x]), U_ + ':keyslice_pairs', setup(how), post, env=env, collect=True, loops=[LoopSpec('pairs', inv, kind='For')]))
    out.append(Contract('update_object', C_ + ':Dict.update_object', setup_up, post_up, env=env_up, loops=[LoopSpec('items', inv_up, kind='For')]))
    out.append(Contract('slice', C_ + ':Dict.slice', setup_sl, post_sl, env=env_sl))
    return out
ASSUMPTIONS = ['dict(to_pairs(d)) is d for a dict d']
