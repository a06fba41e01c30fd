"""C10: a path expression applies its steps left to right; slices fan out, in order; a missing child raises in strict mode and is skipped otherwise."""
from common import *
P_ = 'flatland.schema.paths'
def op(p): return V.hd(p)
def data(p): return V.hd(V.tl(p))
def pair(k, v): return V.cons(k, V.cons(v, NIL))
def own(v): return z3.And(v != ABSENT, z3.Implies(V.is_obj(v), V.r(v) > 0))
def elem(v): return z3.And(V.is_obj(v), V.r(v) > 0)
def kinds(E, st): return [E.to_v(E.lookup_global(st, P_, k)) for k in ('TOP', 'UP', 'HERE', 'NAME', 'SLICE')]
# ---- evaluation
def world(c, st):
    """any step list, any element; where a step leads is a function of the element (evaluating a path changes nothing)"""
    E = c.E; c.me = c.obj(st, 'expression', P_ + ':PathExpression'); c.ops = c.list(st, 'ops'); c.distinct(st, c.me, c.ops); E.setf(st, E.ref(c.me), 'ops', c.ops); c.el = c.sym('element'); c.strict = c.sym('strict', B); c.N, c.O = E.llen(st, E.ref(c.ops)), E.larr(st, E.ref(c.ops))
    TOP, UP, HERE, NAME, SLICE = c.kinds = kinds(E, st); j, i, q, k = z3.Ints('j!w i!w q!w k!w'); o = z3.Select(c.O, j); e = z3.Const('e!w', V); d = z3.Const('d!w', V)
    c.root, c.parent, c.ok, c.child = E.uf('root of', V, V), E.uf('parent of', V, V), E.uf('has child', V, V, B), E.uf('child of', V, V, V); c.CN, c.CA, c.SN, c.SA = E.uf('children', V, I), E.uf('child list', V, AV), E.uf('sliced', I, AV, V, I), E.uf('slice of list', I, AV, V, AV)
    c.assume(st, z3.And(elem(c.el), FA(j, z3.Implies(z3.And(0 <= j, j < c.N), z3.And(V.is_cons(o), V.is_cons(V.tl(o)), V.tl(V.tl(o)) == NIL, z3.Or([op(o) == x for x in c.kinds]), own(data(o)))), o),
        FA(e, elem(c.root(e)), c.root(e)), FA(e, z3.Or(c.parent(e) == NONE, elem(c.parent(e))), c.parent(e)), FA([e, d], elem(c.child(e, d)), c.child(e, d)), FA(e, c.CN(e) >= 0, c.CN(e)), FA([e, j], elem(z3.Select(c.CA(e), j)), z3.Select(c.CA(e), j))))
    a = z3.Const('a!w', AV); c.assume(st, z3.And(FA([i, a, d], z3.And(0 <= c.SN(i, a, d), c.SN(i, a, d) <= i), c.SN(i, a, d)), FA([e, d, j], elem(z3.Select(c.SA(c.CN(e), c.CA(e), d), j)), z3.Select(c.SA(c.CN(e), c.CA(e), d), j))))
    # the walks (definitions): walk q starts at element EL(q) before step OFF(q) and takes STOP(q) steps: to the end, to a missing child or to a slice.
    # Walk 0 is that from the given element; every child a slice selects starts the next one after the slice, in order.
    c.EL, c.OFF, c.STOP, c.W, c.base = E.uf('walk starts at', I, V), E.uf('walk starts before step', I, I), E.uf('steps walked', I, I), E.uf('walk', I, I, V), E.uf('walks known after', I, I)
    c.F, c.RES = E.uf('found after', I, I), c.sym('selected', AV); pos = lambda q, i: z3.Select(c.O, c.OFF(q) + i); c.pos = pos
    c.ends = lambda q: c.OFF(q) + c.STOP(q) == c.N
    here, p = c.W(q, i), pos(q, i); halt = lambda q, i: z3.Or(op(pos(q, i)) == SLICE, z3.And(op(pos(q, i)) == NAME, z3.Not(c.ok(c.W(q, i), data(pos(q, i))))))
    c.missing = lambda q: z3.And(z3.Not(c.ends(q)), op(pos(q, c.STOP(q))) == NAME); c.fans = lambda q: z3.And(z3.Not(c.ends(q)), op(pos(q, c.STOP(q))) == SLICE); at = lambda q: c.W(q, c.STOP(q)); c.sel = sel = lambda q: (c.CN(at(q)), c.CA(at(q)), data(pos(q, c.STOP(q))))
    c.assume(st, z3.And(c.EL(0) == c.el, c.OFF(0) == 0, c.base(0) == 1, c.F(0) == 0,
        FA(q, z3.And(c.W(q, 0) == c.EL(q), 0 <= c.STOP(q), c.OFF(q) + c.STOP(q) <= c.N, z3.Or(c.ends(q), halt(q, c.STOP(q)))), c.STOP(q)),
        FA([q, i], z3.Implies(z3.And(0 <= i, i < c.STOP(q)), z3.And(z3.Not(halt(q, i)), c.W(q, i + 1) == z3.If(op(p) == TOP, c.root(here), z3.If(op(p) == UP, z3.If(c.parent(here) != NONE, c.parent(here), here), z3.If(op(p) == HERE, here, c.child(here, data(p))))))), (c.STOP(q), here)),
        FA(q, z3.Implies(q >= 0, z3.And(c.base(q + 1) == c.base(q) + z3.If(c.fans(q), c.SN(*sel(q)), 0), c.F(q + 1) == c.F(q) + z3.If(c.ends(q), 1, 0), 0 <= c.F(q), z3.Implies(c.ends(q), z3.Select(c.RES, c.F(q)) == at(q)))), c.STOP(q)),
        FA([q, k], z3.Implies(z3.And(q >= 0, c.fans(q), c.base(q) <= k, k < c.base(q + 1)), z3.And(c.EL(k) == z3.Select(c.SA(*sel(q)), k - c.base(q)), c.OFF(k) == c.OFF(q) + c.STOP(q) + 1)), (c.STOP(q), c.EL(k)))))
    c.Q = c.sym('walks', I); c.assume(st, z3.And(c.Q > 0, c.base(c.Q) == c.Q, FA(q, z3.Implies(z3.And(0 <= q, q < c.Q), q < c.base(q)), c.base(q))))
def env(E, c):
    c.q = None
    for nm in ('root', 'parent'):
        def h(E, st, o, nm=nm): yield st, getattr(c, nm)(E.to_v(o))
        E.iface[nm] = h
    def ch(E, st, o): yield st, SeqVal(c.CN(E.to_v(o)), c.CA(E.to_v(o)))
    E.iface['children'] = ch
    def index(E, st, o, args, kw):
        if len(args) != 1 or kw: raise Unsupported('_index')
        e, d = E.to_v(o), E.to_v(args[0])
        for s, b in E.split(st, c.ok(e, d)):
            if b: yield s, c.child(e, d)
            else:
                for x in ('KeyError', 'IndexError', 'TypeError'):
                    yield s.clone(), Exc(x)
    E.icall['_index'] = index
    fields(E, 'name')
    def cls(E, st, o): st = st.clone(); v = E.uf('class of', V, V)(E.to_v(o)); st.pc = st.pc + (elem(v),); yield st, v
    E.iface['__class__'] = cls; E.iface['__name__'] = lambda E, st, o: iter([(st, V.str(E.fresh(S, 'text')))])
    def islist(E, st, o):
        v = E.to_v(o); E.oblige(st, 'it is a list of steps', V.is_obj(v), 'pre'); st = st.clone(); E.setclass(st, v, '__builtin__:list'); return st, v
    def ln(E, st, o):
        st, v = islist(E, st, o)
        for r in E.bi_len(st, [v], {}, None): yield r
    E.iface['len'] = ln
    def item(E, st, o, i):
        st, v = islist(E, st, o)
        for r in E.getitem(st, v, i, None): yield r
    E.iface['getitem'] = item
    E.ext['list.item'] = lambda E, st, n, arr, i: iter([(st, SeqVal(c.SN(n, arr, E.to_v(i)), c.SA(n, arr, E.to_v(i))))])
    txt = lambda E, st, *a: iter([(st, V.str(E.fresh(S, 'text')))])
    E.contracts['flatland.util.base:decode_repr'] = txt; E.ext['format'] = txt
def setup(c, st): world(c, st); return [c.me, c.el, V.bool(c.strict)]
def listed(c, st, v, off):
    """list v holds the steps from `off` on"""
    E = c.E; r = V.r(v); k = z3.Int('k!l'); a = z3.Select(E.comp(st, 'lel'), r); n = z3.Select(E.comp(st, 'llen'), r)
    return [z3.And(V.is_obj(v), n == c.N - off), (k, z3.Implies(z3.And(0 <= k, k < c.N - off), z3.Select(a, k) == z3.Select(c.O, off + k)), z3.Select(a, k))]
def queue(c, st, ctx, n):
    """the first n walks are queued as they start"""
    E = c.E; r = E.ref(ctx); j, k = z3.Ints('j!q k!q'); x = z3.Select(E.larr(st, r), j); v = V.hd(x); f, (k2, g, pat) = listed(c, st, v, c.OFF(j)); x0 = z3.Select(z3.Select(E.comp(st, 'lel'), r), j)
    return [('walks are queued', E.llen(st, r) == n), ] + [('each ' + nm, FA(j, z3.Implies(z3.And(0 <= j, j < n), g0), x)) for nm, g0 in (('is a pair', z3.And(V.is_cons(x), V.is_cons(V.tl(x)), V.tl(V.tl(x)) == NIL)), ('from where it starts', z3.And(data(x) == c.EL(j), elem(c.EL(j)))), ('with that many steps', f), ('in a list of its own', z3.And(V.r(v) >= -st.alloc, z3.Or(V.r(v) < r, V.r(v) > 0))), ('before a step', z3.And(0 <= c.OFF(j), c.OFF(j) <= c.N)))] + [('with the steps that follow', FA([j, k2], z3.Implies(z3.And(0 <= j, j < n), g), (x, pat)))]
def results(c, st, v, n, m):
    E = c.E; r = E.ref(v); j = z3.Int('j!r'); x = z3.Select(E.larr(st, r), j); return [('as many', E.llen(st, r) == m), ('each in its place', FA(j, z3.Implies(z3.And(0 <= j, j < m), x == z3.Select(c.RES, j)), x))]
def old(c, st): E = c.E; r = E.ref(c.ops); return ('the expression is as it was', z3.And(E.llen(st, r) == c.N, E.larr(st, r) == c.O, E.getf(st, E.ref(c.me), 'ops') == c.ops))
def others(L, *refs):
    E = L.E; q = z3.Int('q!o'); h, h0 = (lambda nm: E.comp(L.st, nm)), (lambda nm: E.comp(L.st0, nm))
    return ('other lists are as before', FP(q, z3.Implies(z3.And([q >= -L.st0.alloc] + [q != r for r in refs]), z3.And(z3.Select(h('llen'), q) == z3.Select(h0('llen'), q), z3.Select(h('lel'), q) == z3.Select(h0('lel'), q))), z3.Select(h('llen'), q), z3.Select(h('lel'), q)))
def inv_walks(L):
    E, c, st = L.E, L.c, L.st; ctx, fd = E.to_v(L.src), L.var('found'); i = L.i; c.q = i if z3.is_const(i) and not z3.is_int_value(i) else c.q
    return [('bound', z3.And(i <= c.Q, i <= c.base(i))), ('this one is known', c.STOP(i) >= 0), old(c, st), ('none missed in strict mode', FA(z3.Int('q!s'), z3.Implies(z3.And(c.strict, 0 <= z3.Int('q!s'), z3.Int('q!s') < i), z3.Not(c.missing(z3.Int('q!s')))), c.STOP(z3.Int('q!s'))))] + queue(c, st, ctx, c.base(i)) + [('found: ' + n, f) for n, f in results(c, st, fd, i, c.F(i))]
def inv_steps(L):
    E, c, st = L.E, L.c, L.st; e = E.to_v(L.var('el')); return [('bound', z3.And(L.i <= c.STOP(c.q), c.OFF(c.q) + L.i <= c.N)), ('where the walk is', z3.And(e == c.W(c.q, L.i), elem(e))), others(L)]
def inv_fan(L):
    E, c, st = L.E, L.c, L.st; r = E.lcout; q = c.q; j, k = z3.Ints('j!y k!y'); x = z3.Select(E.larr(st, r), j); n, a, d = c.sel(q); v = V.hd(x); f, (k2, g, pat) = listed(c, st, v, c.OFF(q) + c.STOP(q) + 1)
    return [('bound', L.i <= c.SN(n, a, d)), ('one for each', E.llen(st, r) == L.i), ('each child starts a walk', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.And(V.is_cons(x), V.is_cons(V.tl(x)), V.tl(V.tl(x)) == NIL, data(x) == z3.Select(c.SA(n, a, d), j), f, V.r(v) >= -st.alloc, V.r(v) < r)), x)), ('with the steps that follow', FA([j, k2], z3.Implies(z3.And(0 <= j, j < L.i), g), (x, pat))), others(L, r)]
def post(c, st, r):
    E = c.E; q = z3.Int('q!p'); some = exw([q], z3.And(0 <= q, q < c.Q, c.missing(q)), (c.q,)) if c.q is not None else None
    if isexc(r): return [('only LookupError, in strict mode (not %s)' % r.cls, z3.And(c.strict, r.cls in ('LookupError', 'KeyError', 'IndexError'))), ('only for a missing child', some)]
    return [('a missing child is an error in strict mode', FA(q, z3.Implies(z3.And(c.strict, 0 <= q, q < c.Q), z3.Not(c.missing(q))), c.STOP(q)))] + [('the selected elements, in order: ' + n, f) for n, f in results(c, st, r, c.Q, c.F(c.Q))] + [old(c, st)]
# ---- '..' cancels the step written before it
def setup_c(c, st):
    E = c.E; c.toks = c.list(st, 'tokens'); c.n, c.a = E.llen(st, E.ref(c.toks)), E.larr(st, E.ref(c.toks)); TOP, UP, HERE, NAME, SLICE = c.kinds = kinds(E, st); i, j = z3.Ints('i!c j!c'); t = z3.Select(c.a, i)
    c.assume(st, FA(i, z3.Implies(z3.And(0 <= i, i < c.n), z3.And(V.is_cons(t), V.is_cons(V.tl(t)), V.tl(V.tl(t)) == NIL, z3.Or([op(t) == x for x in c.kinds]))), t))
    # what is left of the first i steps (definition): a stack
    c.D, c.K = E.uf('steps left of first', I, I), E.uf('left of first', I, AV); D, K = c.D, c.K; prev = op(z3.Select(K(i), D(i) - 1)); up = op(t) == UP
    skip = z3.Or(z3.And(op(t) == HERE, c.n > 1), z3.And(up, D(i) > 0, prev == TOP)); cancel = z3.And(up, D(i) > 0, prev != TOP, prev != UP)
    c.assume(st, z3.And(D(0) == 0, FA(i, z3.Implies(z3.And(0 <= i, i < c.n), z3.And(D(i) >= 0, D(i + 1) == z3.If(skip, D(i), z3.If(cancel, D(i) - 1, D(i) + 1)))), t),
        FA([i, j], z3.Implies(z3.And(0 <= i, i < c.n, 0 <= j, j < D(i + 1)), z3.Select(K(i + 1), j) == z3.If(z3.Or(skip, cancel), z3.Select(K(i), j), z3.If(j == D(i), t, z3.Select(K(i), j)))), (t, z3.Select(K(i + 1), j)))))
    return [c.toks]
def left(c, st, v, i): E = c.E; r = E.ref(v); j = z3.Int('j!k'); x = z3.Select(E.larr(st, r), j); return [('as many', z3.And(E.llen(st, r) == c.D(i), c.D(i) >= 0)), ('the steps left, in order', FA(j, z3.Implies(z3.And(0 <= j, j < c.D(i)), x == z3.Select(c.K(i), j)), x, z3.Select(c.K(i), j)))]
def inv_c(L): E, c = L.E, L.c; r = E.ref(L.var('canonical')); j = z3.Int('j!s'); x = z3.Select(E.larr(L.st, r), j); return [('bound', L.i <= c.n), ('they are steps', FA(j, z3.Implies(z3.And(0 <= j, j < c.D(L.i)), V.is_cons(x)), x)), framed(c, L.st, 'llen', r), framed(c, L.st, 'lel', r)] + left(c, L.st, L.var('canonical'), L.i)
def post_c(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    return left(c, st, r, c.n) + [framed(c, st, 'llen'), framed(c, st, 'lel')]
def env_c(E, c):
    def item(E, st, o, i):
        if not isinstance(i, int) or i not in (0, 1): raise Unsupported('item of a step')
        E.oblige(st, 'it is a step', V.is_cons(o), 'pre'); yield st, z3.simplify(op(o) if i == 0 else data(o))
    E.iface['getitem'] = item
# ---- compiled expressions are shared
def env_p(E, c):
    def new(E, st, args, kw):
        if len(args) + len(kw) != 1: raise Unsupported('PathExpression()')
        st = st.clone(); v = E.alloc(st); st.pc = st.pc + (c.good(v, E.to_v((args + list(kw.values()))[0])),); yield st, v
    E.ext['new:' + P_ + ':PathExpression'] = new
    E.ext['unicode'] = lambda E, st, args, kw: iter([(st, V.str(E.uf('text of', V, S)(E.to_v(args[0]))))])
def setup_p(c, st):
    E = c.E; c.good = lambda v, k: E.uf('compiled from', V, V, B)(v, k); c.cache = c.obj(st, 'cache', '__builtin__:dict'); st.loc[('g', P_, 'expression_cache')] = c.cache; r = E.ref(c.cache); k = z3.Const('k!p', V); m = z3.Select(E.dmap(st, r), k); d = z3.Select(E.dom(st, r), k)
    c.assume(st, FP(k, z3.Implies(d, z3.And(elem(m), c.good(m, k))), d)); c.expr = c.sym('expr'); return [c.expr]
def post_p(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; k = z3.Const('k!q', V); cr = E.ref(c.cache); d = z3.Select(E.dom(st, cr), k); want = z3.If(V.is_str(c.expr), c.expr, V.str(E.uf('text of', V, S)(c.expr)))
    return [('compiled from that text', c.good(E.to_v(r), want)), ('every cached expression is the one compiled from its text', FP(k, z3.Implies(d, c.good(z3.Select(E.dmap(st, cr), k), k)), d))]
def setup_i(c, st): E = c.E; c.me = c.obj(st, 'expression', P_ + ':PathExpression'); c.expr = c.sym('expr'); trace(c, st, 'tok', 1); return [c.me, c.expr]
def env_i(E, c):
    def tok(E, st, b, f): st = st.clone(); rec(E, st, 'tok', b['path']); yield st, V.obj(z3.Int('the_steps'))
    E.contracts[P_ + ':tokenize'] = tok
def post_i(c, st, r):
    E = c.E
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    return [('its steps are those of the text', z3.And(cnt(E, st, 'tok') == 1, col(E, st, 'tok', 0, 0) == c.expr, E.getf(st, E.ref(c.me), 'ops') == V.obj(z3.Int('the_steps')))), ('it keeps the text', E.getf(st, E.ref(c.me), 'expr') == c.expr)]
# ---- find
B_ = 'flatland.schema.base'
def setup_f(c, st): E = c.E; c.me = c.obj(st, 'element', B_ + ':Element'); c.path, c.single, c.strict = c.sym('path'), c.sym('single', B), c.sym('strict', B); c.res = c.list(st, 'results'); c.n, c.a = E.llen(st, E.ref(c.res)), E.larr(st, E.ref(c.res)); c.fails = c.sym('fails', B); c.ex = c.sym('compiled'); trace(c, st, 'eval', 3); trace(c, st, 'comp', 1); c.distinct(st, c.me, c.res); c.assume(st, elem(c.ex)); c.assume(st, c.ex != c.res); return [c.me, c.path, V.bool(c.single), V.bool(c.strict)]
def env_f(E, c):
    def pe(E, st, b, f): st = st.clone(); rec(E, st, 'comp', b['expr']); yield st, c.ex
    E.contracts[P_ + ':pathexpr'] = pe
    def call(E, st, f, args, kw):
        if not E.to_v(f).eq(c.ex): raise Unsupported('call of an unknown object')
        a = list(args) + [kw[k] for k in ('element', 'strict')[len(args):] if k in kw]; a = a + [False] * (2 - len(a))
        st = st.clone(); rec(E, st, 'eval', f, *a)
        for s, b in E.split(st, c.fails):
            yield s, (Exc('LookupError') if b else c.res)
    E.extcall = call
    E.ext['format'] = lambda E, st, *a: iter([(st, V.str(E.fresh(S, 'text')))])
def post_f(c, st, r):
    E = c.E; once = ('the expression is evaluated on the element, once', z3.And(cnt(E, st, 'comp') == 1, col(E, st, 'comp', 0, 0) == c.path, cnt(E, st, 'eval') == 1, col(E, st, 'eval', 1, 0) == c.me, col(E, st, 'eval', 2, 0) == V.bool(c.strict)))
    if isexc(r): return [once, ('only LookupError (not %s)' % r.cls, isexc(r, 'LookupError')), ('for a failed lookup, or several matches in strict mode', z3.Or(c.fails, z3.And(c.single, c.strict, c.n > 1)))]
    r = E.to_v(r); return [once, ('a failed lookup is an error', z3.Not(c.fails)), ('all results', z3.Implies(z3.Not(c.single), z3.And(V.is_obj(r), z3.Select(E.comp(st, 'llen'), V.r(r)) == c.n, z3.Select(E.comp(st, 'lel'), V.r(r)) == c.a))), ('several matches are an error in strict mode', z3.Not(z3.And(c.single, c.strict, c.n > 1))), ('the first one', z3.Implies(z3.And(c.single, c.n > 0), r == z3.Select(c.a, 0))), ('None for no match', z3.Implies(z3.And(c.single, c.n == 0), r == NONE))]
# ---- the text of a slice
COL = z3.StringVal(':')
def env_s(E, c):
    def sp(E, st, o, args, kw):
        if not E.to_v(o).eq(V.str(c.text)) or len(args) != 2 or E.from_v(args[0]) != ':' or E.from_v(args[1]) != 2 or kw: raise Unsupported('split')
        yield st, Tup([V.str(x) for x in c.parts])
    E.ext['str.split'] = sp
def setup_s(n):
    def f(c, st):
        c.parts = [c.sym('part%d' % k, S) for k in range(n)]; c.text = z3.Concat(*[x for p in c.parts for x in (COL, p)][1:]) if n > 1 else c.parts[0]
        for p in c.parts: c.assume(st, z3.And(z3.Not(z3.Contains(p, COL)), z3.Or(p == z3.StringVal(''), c.E.uf('int_ok', V, B)(V.str(p)))))
        if n == 1: c.assume(st, c.parts[0] != z3.StringVal(''))      # the empty name is not a slice
        return [V.str(c.text)]
    return f
def post_s(n):
    def f(c, st, r):
        if isexc(r): return [('no exception (not %s)' % r.cls, False)]
        E = c.E; r = E.from_v(r)
        if not isinstance(r, Tup) or len(r.items) != 2: return [('a step', False)]
        k, d = r.items; d = E.from_v(d); TOP, UP, HERE, NAME, SLICE = kinds(E, st); num = lambda p: V.int(E.uf('int_of', V, I)(V.str(p))); empty = [p == z3.StringVal('') for p in c.parts]; part = lambda q: z3.If(empty[q], NONE, num(c.parts[q]))
        if not isinstance(d, SliceV): return [('a plain name is a name', z3.And(n == 1, E.to_v(k) == NAME, E.to_v(d) == V.str(c.text), z3.Not(z3.PrefixOf(z3.StringVal('-'), c.text)))) ]
        lo, hi, step = [E.to_v(x) for x in (d.lo, d.hi, d.step)]; is_ = ('a slice', E.to_v(k) == SLICE)
        if n == 1:
            x = E.uf('int_of', V, I)(V.str(c.text)); return [is_, ('only a negative number is', z3.PrefixOf(z3.StringVal('-'), c.text)), ('one member: the number-th from the end', z3.And(lo == V.int(x), hi == z3.If(x == -1, NONE, V.int(x + 1)), z3.Or(step == NONE, step == V.int(1))))]
        st_ = part(2) if n == 3 else NONE; zero = st_ == V.int(0); up = z3.Or(st_ == NONE, V.i(st_) > 0)
        return [is_, ('from the given start (from the beginning when there is none)', z3.Implies(z3.Not(zero), z3.Or(lo == part(0), z3.And(up, part(0) == NONE, lo == V.int(0))))), ('to the given end', z3.Implies(z3.Not(zero), hi == part(1))), ('by the given step', z3.Implies(z3.Not(zero), z3.Or(step == st_, z3.And(st_ == NONE, step == V.int(1)))))]
    return f
def contracts(P):
    isfor = lambda node: node is not None and node._ == 'For'
    def outer(E, st, fr, node, src): return isfor(node) and node.target._ == 'Tuple'
    def inner(E, st, fr, node, src): return isfor(node) and node.target._ == 'Name'
    return [Contract('PathExpression.__call__', P_ + ':PathExpression.__call__', setup, post, env=env, loops=[LoopSpec('walks', inv_walks, match=outer), LoopSpec('steps', inv_steps, match=inner), LoopSpec('fan', inv_fan)]),
            Contract('_canonicalize', P_ + ':_canonicalize', setup_c, post_c, env=env_c, loops=[LoopSpec('steps', inv_c)]), Contract('pathexpr', P_ + ':pathexpr', setup_p, post_p, env=env_p), Contract('PathExpression.__init__', P_ + ':PathExpression.__init__', setup_i, post_i, env=env_i), Contract('Element.find', B_ + ':Element.find', setup_f, post_f, env=env_f)] + [Contract('_parse_slice(%d)' % n, P_ + ':_parse_slice', setup_s(n), post_s(n), env=env_s) for n in (1, 2, 3)]
ASSUMPTIONS = ['list(children)[slice] selects what Python slice rules say', 'root, parent, children and _index are functions of the element while an expression is evaluated (C05, C06, C08), and _index fails with LookupError or TypeError only', 'the step list consists of pairs of a step kind and its data (tokenize)']
