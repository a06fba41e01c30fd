"""C23: form classes collect declared and inherited fields with Python precedence."""
from common import *
F_ = 'flatland.schema.forms'
COL = F_ + ':_ElementCollection'
def name(c, v): return c.name(V.r(v))
def world(c, st, kind):
    """a collection: its entries have different names, and `names` holds exactly these"""
    E = c.E; c.me = c.obj(st, 'collection', COL); c.els, c.names = c.list(st, 'elements'), c.obj(st, 'names', '__builtin__:set'); c.it = c.list(st, 'iterable'); c.distinct(st, c.me, c.els, c.names, c.it)
    E.setf(st, E.ref(c.me), 'elements', c.els); E.setf(st, E.ref(c.me), 'names', c.names); c.er, c.nr = E.ref(c.els), E.ref(c.names); c.name = E.uf('attr_name', I, V); j = z3.Int('j!'); x = z3.Const('x!', V)
    c.n0, c.a0, c.d0 = E.llen(st, c.er), E.larr(st, c.er), E.dom(st, c.nr); c.m, c.b = E.llen(st, E.ref(c.it)), E.larr(st, E.ref(c.it)); c.P0 = c.sym('position', z3.ArraySort(V, I)); E.setcomp(st, 'gv.P', c.P0, None)
    e, f = z3.Select(c.a0, j), z3.Select(c.b, j); cls = lambda e: z3.And(V.is_obj(e), V.r(e) > 0, name(c, e) != ABSENT, z3.Or(name(c, e) == NONE, V.is_str(name(c, e))))
    E.textkeyed.append(c.nr); P = lambda x: z3.Select(c.P0, x)
    c.assume(st, z3.And(FA(j, z3.Implies(z3.And(0 <= j, j < c.n0), z3.And(cls(e), P(name(c, e)) == j)), e), FA(j, z3.Implies(z3.And(0 <= j, j < c.n0), z3.Select(c.d0, name(c, e))), z3.Select(c.d0, name(c, e))), FA(j, z3.Implies(z3.And(0 <= j, j < c.m), cls(f)), f),
                        FA(x, z3.Implies(z3.Select(c.d0, x), z3.And(0 <= P(x), P(x) < c.n0, name(c, z3.Select(c.a0, P(x))) == x)), z3.Select(c.d0, x))))
    # the first / last field of a name in the iterable (first: m when there is none, last: -1 when there is none); both among the first i
    if kind == 'unseen':
        c.fs = E.uf('first_field_of', V, I); c.assume(st, z3.And(FA(x, z3.And(0 <= c.fs(x), c.fs(x) <= c.m, z3.Implies(c.fs(x) < c.m, name(c, z3.Select(c.b, c.fs(x))) == x)), c.fs(x)), FA(j, z3.Implies(z3.And(0 <= j, j < c.m), c.fs(name(c, f)) <= j), f)))
        c.C = E.uf('new_before', I, I); new = z3.And(z3.Not(z3.Select(c.d0, name(c, f))), c.fs(name(c, f)) == j)
        c.assume(st, z3.And(c.C(0) == 0, FA(j, z3.Implies(z3.And(0 <= j, j < c.m), c.C(j + 1) == c.C(j) + z3.If(new, 1, 0)), f)))
    else:
        c.last = E.uf('last_field_of_among', V, I, I)
        c.assume(st, z3.And(FA(x, c.last(x, 0) == -1, c.last(x, 0)), FA([x, j], z3.Implies(z3.And(0 <= j, j < c.m), c.last(x, j + 1) == z3.If(name(c, f) == x, j, c.last(x, j))), (c.last(x, j + 1), f))))
    return [c.me, c.it]
def env(E, c):
    frozen(E, 'name'); E.identity = True
    def app(E, st, o, args):          # ghost: where the entry of each name is
        if not o.eq(c.els): return st
        st = st.clone(); E.setcomp(st, 'gv.P', z3.Store(E.comp(st, 'gv.P'), name(c, E.to_v(args[0])), E.llen(st, c.er)), None); return st
    def rem(E, st, o, args):
        if not o.eq(c.els): return st
        st = st.clone(); P = E.comp(st, 'gv.P'); Q = E.fresh(P.sort(), 'P'); x = z3.Const('x!g', V); k = z3.Select(P, name(c, E.to_v(args[0])))
        st.pc = st.pc + (FA(x, z3.Select(Q, x) == z3.If(z3.Select(P, x) > k, z3.Select(P, x) - 1, z3.Select(P, x)), z3.Select(Q, x)),); E.setcomp(st, 'gv.P', Q, None)
        A = E.fresh(AV, 'entries'); j = z3.Int('j!g'); B0 = E.larr(st, c.er); st.pc = st.pc + (FA(j, z3.Select(A, j) == z3.Select(B0, j), z3.Select(A, j)),); E.lset(st, c.er, E.llen(st, c.er), A); return st
    E.ext['on:list.append'] = app; E.ext['on:list.remove'] = rem
    for at, key in (('elements', 'els'), ('names', 'names')):
        def rebind(E, st, o, v, at=at, key=key):
            w = getattr(c, key, None)
            if w is not None and not z3.simplify(E.to_v(v)).eq(z3.simplify(w)): raise Unsupported('another object becomes %s' % at)
            s = st.clone(); E.setf(s, E.ref(o), at, v); yield s, None
        E.iface[COL + '.' + at + '='] = rebind
def tied(c, st, hole=None):
    """(between steps) entries, names and positions belong together"""
    E = c.E; j = z3.Int('j!t'); x = z3.Const('x!t', V); n, a, d, P = E.llen(st, c.er), E.larr(st, c.er), E.dom(st, c.nr), E.comp(st, 'gv.P'); e = z3.Select(a, j)
    return [('entries have names and positions', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.is_obj(e), V.r(e) > 0, z3.Select(P, name(c, e)) == j)), e)), ('their names are in the set', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(d, name(c, e))), z3.Select(d, name(c, e)))),
            ('names have entries', FA(x, z3.Implies(z3.Select(d, x), z3.And(0 <= z3.Select(P, x), z3.Select(P, x) < n, name(c, z3.Select(a, z3.Select(P, x))) == x)), z3.Select(d, x)))]
def once(c, st):
    """each name exactly once (no ghosts)"""
    E = c.E; i, j = z3.Ints('i!o j!o'); x = z3.Const('x!o', V); n, a, d, P = E.llen(st, c.er), E.larr(st, c.er), E.dom(st, c.nr), E.comp(st, 'gv.P'); e = lambda j: z3.Select(a, j)
    return [('each name exactly once', FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), name(c, e(i)) != name(c, e(j))), (e(i), e(j)))), ('names are those of the entries', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(d, name(c, e(j)))), e(j))),
            ('and no others', FA(x, z3.Implies(z3.Select(d, x), exw([j], z3.And(0 <= j, j < n, name(c, e(j)) == x), (z3.Select(P, x),))), z3.Select(d, x)))]
def own(c, st): return [('the collection keeps its list and set', z3.And(c.E.getf(st, c.E.ref(c.me), 'elements') == c.els, c.E.getf(st, c.E.ref(c.me), 'names') == c.names)), framed(c, st, 'llen', c.er), framed(c, st, 'lel', c.er)]
# ---- add_unseen
def unseen(c, st, i):
    E = c.E; j = z3.Int('j!u'); x = z3.Const('x!u', V); n, a, d = E.llen(st, c.er), E.larr(st, c.er), E.dom(st, c.nr); f = z3.Select(c.b, j); new = z3.And(z3.Not(z3.Select(c.d0, name(c, f))), c.fs(name(c, f)) == j)
    return [('the old entries stay, in their places', FA(j, z3.Implies(z3.And(0 <= j, j < c.n0), z3.Select(a, j) == z3.Select(c.a0, j)), z3.Select(a, j), z3.Select(c.a0, j))), ('as many more as there are new names', n == c.n0 + c.C(i)),
            ('the first field of each new name follows, in order', FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.And(0 <= c.C(j), c.C(j) <= c.C(i), z3.Implies(new, z3.And(c.C(j) < c.C(i), z3.Select(a, c.n0 + c.C(j)) == f)))), f)),
            ('names', FA(x, z3.Select(d, x) == z3.Or(z3.Select(c.d0, x), c.fs(x) < i), z3.Select(d, x)))]
def inv_unseen(L): return [('bound', L.i <= L.c.m)] + unseen(L.c, L.st, L.i) + tied(L.c, L.st)
def post_unseen(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return unseen(c, st, c.m) + once(c, st) + own(c, st)
# ---- add_and_overwrite
def over(c, st, i):
    E = c.E; j = z3.Int('j!v'); n, a, d = E.llen(st, c.er), E.larr(st, c.er), E.dom(st, c.nr); e = z3.Select(a, j); x = z3.Const('x!v', V); l = lambda x: c.last(x, i)
    return [('the entry of a listed name is the last field given for it, of any other name the old one', FA(j, z3.Implies(z3.And(0 <= j, j < n), e == z3.If(l(name(c, e)) >= 0, z3.Select(c.b, l(name(c, e))), z3.Select(c.a0, z3.Select(c.P0, name(c, e))))), e)), ('last is in range', FA(x, z3.And(-1 <= l(x), l(x) < i), l(x))),
            ('the names: the old and the listed ones', FA(x, z3.Select(d, x) == z3.Or(z3.Select(c.d0, x), l(x) >= 0), z3.Select(d, x)))]
def inv_over(L): return [('bound', L.i <= L.c.m)] + over(L.c, L.st, L.i) + tied(L.c, L.st)
def inv_find(L):
    E, c, st = L.E, L.c, L.st; j = z3.Int('j!f'); a = E.larr(st, c.er); e = z3.Select(a, j); fld = E.to_v(L.var('field'))
    same = [E.llen(st, c.er) == E.llen(L.st0, c.er), a == E.larr(L.st0, c.er), E.comp(st, 'gv.P') == E.comp(L.st0, 'gv.P')]
    return [('bound', L.i <= E.llen(st, c.er)), ('the list is as before', z3.And(same)), ('not found so far', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), name(c, e) != name(c, fld)), e))]
def post_over(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return over(c, st, c.m) + once(c, st) + own(c, st)
# ---- the metaclass
def env_m(E, c):
    frozen(E, 'name'); E.identity = True
    E.ext['new:' + COL] = lambda E, st, args, kw: iter([(st, c.col)])
    def op(kind):
        def h(E, st, b, f): st = st.clone(); rec(E, st, 'op', b['self'], kind, b['iterable']); yield st, None
        return h
    E.contracts[COL + '.add_unseen'], E.contracts[COL + '.add_and_overwrite'] = op('unseen'), op('overwrite')
    c.isel = E.uf('is_element_schema', V, B); c.own = E.uf('field_schema_of', V, V); c.hasown = E.uf('has_field_schema', V, B); c.nm = E.uf('named', V, V, V); c.name = E.uf('attr_name', I, V); c.iscls = E.uf('is_class', V, B)
    def ga(E, st, args):
        if args[1] != 'field_schema' or len(args) != 3: raise Unsupported('getattr')
        for s, b in E.split(st, c.hasown(E.to_v(args[0]))): yield s, (c.own(E.to_v(args[0])) if b else args[2])
    E.iface['getattr'] = ga
    E.ext['isinstance'] = lambda E, st, args, kw: iter([(st, V.bool(c.iscls(E.to_v(args[0]))))])
    E.ext['issubclass'] = lambda E, st, args, kw: iter([(st, V.bool(c.isel(E.to_v(args[0]))))])
    E.icall['named'] = lambda E, st, o, args, kw: iter([(st, c.nm(E.to_v(o), E.to_v(args[0])))])
    def make(E, st, args, kw): st = st.clone(); rec(E, st, 'made', *args); yield st, c.made
    E.ext['type.__new__'] = make
    def app(E, st, o, args): st = st.clone(); E.setcomp(st, 'gv.P', z3.Store(E.comp(st, 'gv.P'), name(c, E.to_v(args[0])), E.llen(st, E.ref(o))), None); return st
    E.ext['on:list.append'] = app
def setup_m(c, st):
    E = c.E; c.col, c.els = c.obj(st, 'fields', COL), c.sym('elements'); E.setf(st, E.ref(c.col), 'elements', c.els); c.bases, c.mem = c.list(st, 'bases'), c.dict(st, 'members'); c.distinct(st, c.col, c.bases, c.mem); c.made = c.sym('form_class'); c.meta, c.cn = c.sym('meta'), c.sym('class_name'); c.assume(st, z3.And([x != ABSENT for x in (c.els, c.made, c.meta, c.cn)]))
    c.mr = E.ref(c.mem); E.textkeyed.append(c.mr); x, y = z3.Consts('x! y!', V); c.d0, c.m0 = E.dom(st, c.mr), E.dmap(st, c.mr); m = z3.Select(c.m0, x)
    c.assume(st, z3.And(FA(x, z3.Implies(z3.Select(c.d0, x), V.is_str(x)), z3.Select(c.d0, x)), FA(x, m != ABSENT, m), FA(x, z3.Implies(c.isel(x), z3.And(V.is_obj(x), V.r(x) > 0, c.iscls(x), V.is_str(c.name(V.r(x))))), c.isel(x)), FA([x, y], z3.And(V.is_obj(c.nm(x, y)), V.r(c.nm(x, y)) > 0, c.name(V.r(c.nm(x, y))) == y), c.nm(x, y)), z3.Not(c.isel(z3.Select(c.m0, sv('field_schema')))), FA(x, c.own(x) != ABSENT, c.own(x))))
    c.nb, c.ba = E.llen(st, E.ref(c.bases)), E.larr(st, E.ref(c.bases)); j = z3.Int('j!'); c.assume(st, FA(j, z3.Select(c.ba, j) != ABSENT, z3.Select(c.ba, j))); trace(c, st, 'op', 3); trace(c, st, 'made', 4); E.comp(st, 'gv.P')
    c.decl = lambda x: z3.And(z3.Select(c.d0, x), c.isel(z3.Select(c.m0, x))); c.field = lambda x: z3.If(x == c.name(V.r(z3.Select(c.m0, x))), z3.Select(c.m0, x), c.nm(z3.Select(c.m0, x), x)); return [c.meta, c.cn, c.bases, c.mem]
def base_ops(c, st, i):
    E = c.E; j = z3.Int('j!b'); t = lambda k: z3.Select(E.comp(st, 'tr.op.%d' % k), j); b = z3.Select(c.ba, j)
    return ('the fields of each base are added in order, where unseen', FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.And(t(0) == c.col, t(1) == sv('unseen'), t(2) == z3.If(c.hasown(b), c.own(b), NIL))), b, t(2)))
def inv_bases(L): return [('bound', L.i <= L.c.nb), ('one addition per base', cnt(L.E, L.st, 'op') == L.i), base_ops(L.c, L.st, L.i)]
def inv_members(L):
    E, c, st = L.E, L.c, L.st; n, ks, ix = E.last_dict_order; k = z3.Int('k!m'); x = z3.Const('x!m', V); at = z3.Select(ix, x)
    r = E.ref(L.var('declared_fields')); N, A = E.llen(st, r), E.larr(st, r); d, m = E.dom(st, c.mr), E.dmap(st, c.mr); w = z3.Select(A, k); nw = c.name(V.r(w)); P = E.comp(st, 'gv.P'); p = z3.Select(P, x)
    return [('bound', L.i <= n), ('entries are declarations, each once', FA(k, z3.Implies(z3.And(0 <= k, k < N), z3.And(V.is_obj(w), V.r(w) > 0, c.decl(nw), w == c.field(nw), z3.Select(ix, nw) < L.i, z3.Select(P, nw) == k)), w)), ('a list of its own', r < 0),
            ('every declaration so far is there', FA(x, z3.Implies(z3.And(c.decl(x), at < L.i), z3.And(0 <= p, p < N, z3.Select(A, p) == c.field(x))), at, p)),
            ('declarations are removed', FA(x, z3.Select(d, x) == z3.And(z3.Select(c.d0, x), z3.Not(z3.And(c.isel(z3.Select(c.m0, x)), at < L.i))), z3.Select(d, x))), ('values stay', FA(x, z3.Implies(z3.Select(d, x), z3.Select(m, x) == z3.Select(c.m0, x)), z3.Select(m, x)))]
def post_m(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; N = cnt(E, st, 'op'); op = lambda k, i: col(E, st, 'op', k, i); fs = sv('field_schema'); x = z3.Const('x!p', V); i, k = z3.Ints('i!p k!p'); d, m = E.dom(st, c.mr), E.dmap(st, c.mr)
    r = V.r(op(2, c.nb + 1)); n, A = z3.Select(E.comp(st, 'llen'), r), z3.Select(E.comp(st, 'lel'), r); w = lambda k: z3.Select(A, k); nw = lambda k: c.name(V.r(w(k)))
    return [base_ops(c, st, c.nb), ('then the own field list and the declared fields replace', z3.And(N == c.nb + 2, op(0, c.nb) == c.col, op(0, c.nb + 1) == c.col, op(1, c.nb) == sv('overwrite'), op(1, c.nb + 1) == sv('overwrite'), op(2, c.nb) == z3.If(z3.Select(c.d0, fs), z3.Select(c.m0, fs), NIL))),
            ('declared fields are the schemas among the attributes, renamed to their attribute', FA(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(c.decl(nw(k)), w(k) == c.field(nw(k)))), w(k))), ('each once', FA([i, k], z3.Implies(z3.And(0 <= i, i < k, k < n), nw(i) != nw(k)), (w(i), w(k)))),
            ('all of them', FA(x, z3.Implies(c.decl(x), exw([k], z3.And(0 <= k, k < n, w(k) == c.field(x)), (z3.Select(E.comp(st, 'gv.P'), x),))), z3.Select(c.d0, x))),
            ('they do not remain class attributes, the others do', FA(x, z3.Implies(x != fs, z3.And(z3.Select(d, x) == z3.And(z3.Select(c.d0, x), z3.Not(c.isel(z3.Select(c.m0, x)))), z3.Implies(z3.Select(d, x), z3.Select(m, x) == z3.Select(c.m0, x)))), z3.Select(d, x))), ("the class's field list is the collection's", z3.And(z3.Select(d, fs), z3.Select(m, fs) == c.els)),
            ('the class is made of these', z3.And(cnt(E, st, 'made') == 1, E.to_v(res) == c.made, *[col(E, st, 'made', k, 0) == v for k, v in enumerate((c.meta, c.cn, c.bases, c.mem))])), framed(c, st, 'dom', c.mr), framed(c, st, 'map', c.mr), framed(c, st, 'llen'), framed(c, st, 'lel')]
def setup_init(c, st): c.me = c.obj(st, 'collection', COL); return [c.me]
def post_init(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; r = E.ref(c.me); e, n = E.getf(st, r, 'elements'), E.getf(st, r, 'names'); x = z3.Const('x!', V)
    return [('starts empty, with a list and a set of its own', z3.And(V.is_obj(e), V.is_obj(n), V.r(e) < 0, V.r(n) < 0, E.llen(st, V.r(e)) == 0, FA(x, z3.Not(z3.Select(E.dom(st, V.r(n)), x)))))]
def contracts(P):
    is_it = lambda E, st, fr, node, src: isinstance(E.from_v(src), z3.ExprRef) and E.to_v(src).eq(E.ghost.it)
    is_els = lambda E, st, fr, node, src: not is_it(E, st, fr, node, src)
    return [Contract('_ElementCollection.__init__', COL + '.__init__', setup_init, post_init),
            Contract('_ElementCollection.add_unseen', COL + '.add_unseen', lambda c, st: world(c, st, 'unseen'), post_unseen, env=env, loops=[LoopSpec('fields', inv_unseen, kind='For')]),
            Contract('_ElementCollection.add_and_overwrite', COL + '.add_and_overwrite', lambda c, st: world(c, st, 'over'), post_over, env=env, loops=[LoopSpec('fields', inv_over, kind='For', match=is_it), LoopSpec('find', inv_find, kind='For', match=is_els)]),
            Contract('_MetaForm.__new__', F_ + ':_MetaForm.__new__', setup_m, post_m, env=env_m, loops=[LoopSpec('bases', inv_bases, kind='For', match=lambda E, st, fr, node, src: isinstance(src, z3.ExprRef) and src.eq(E.ghost.bases)), LoopSpec('members', inv_members, kind='For', match=lambda E, st, fr, node, src: not(isinstance(src, z3.ExprRef) and src.eq(E.ghost.bases)))])]
ASSUMPTIONS = ['field names are text or None and do not change']
