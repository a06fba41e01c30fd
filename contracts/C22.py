"""C22: flat import routes exactly the matching pairs; flat export lists every flattenable element once under its flattened name."""
from common import *
import C08
B_, C_ = 'flatland.schema.base', 'flatland.schema.containers'
EL, SC, STR = B_ + ':Element', 'flatland.schema.scalars:Scalar', 'flatland.schema.scalars:String'
def key(p): return V.hd(p)
def val(p): return V.hd(V.tl(p))
def pair(k, v): return V.cons(k, V.cons(v, NIL))
def is_pair(p): return z3.And(V.is_cons(p), V.is_cons(V.tl(p)), V.tl(V.tl(p)) == NIL)
def own(v): return z3.And(v != ABSENT, z3.Implies(V.is_obj(v), V.r(v) > 0))
def flatpairs(c, st):
    """any list of (key, value): keys are text or None"""
    E = c.E; c.pairs = c.list(st, 'pairs'); c.pn, c.pa = E.llen(st, E.ref(c.pairs)), E.larr(st, E.ref(c.pairs)); j = z3.Int('j!fp'); p = z3.Select(c.pa, j)
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.pn), z3.And(is_pair(p), z3.Or(key(p) == NONE, V.is_str(key(p))), own(val(p)))), p))
    c.sep = c.sym('sep', S); c.sepv = V.str(c.sep)
# ---- scalars
def env_s(E, c):
    def st_(E, st, b, f): st = st.clone(); rec(E, st, 'set', b['self'], b[[k for k in b if k != 'self'][0]]); yield st, V.bool(z3.Bool('set_result'))
    E.contracts[SC + '.set'] = st_
def mine(c, p): return z3.Or(key(p) == c.name, z3.And(key(p) == V.str(z3.StringVal('')), c.name == NONE))
def setup_s(c, st):
    flatpairs(c, st); E = c.E; c.me = c.obj(st, 'element', STR); c.distinct(st, c.me, c.pairs); c.name = c.sym('name'); c.assume(st, z3.Or(c.name == NONE, V.is_str(c.name))); E.setf(st, E.ref(c.me), 'name', c.name); trace(c, st, 'set', 2)
    c.first = c.sym('first_match', I); j = z3.Int('j!fm'); c.assume(st, z3.And(0 <= c.first, c.first <= c.pn, FA(j, z3.Implies(z3.And(0 <= j, j < c.first), z3.Not(mine(c, z3.Select(c.pa, j)))), z3.Select(c.pa, j)), z3.Implies(c.first < c.pn, mine(c, z3.Select(c.pa, c.first)))))
    return [c.me, c.pairs, c.sepv]
def inv_s(L): c, st = L.c, L.st; return [('bound', L.i <= c.pn), ('no match so far', L.i <= c.first), ('nothing is set', cnt(c.E, st, 'set') == 0)]
def post_s(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; n = cnt(E, st, 'set'); return [('without a match nothing is set', z3.Implies(c.first == c.pn, n == 0)), ('the first matching value is set, once', z3.Implies(c.first < c.pn, z3.And(n == 1, col(E, st, 'set', 0, 0) == c.me, col(E, st, 'set', 1, 0) == val(z3.Select(c.pa, c.first)))))]
# ---- filters: what is left of a list after dropping what does not match, in order
def filtered(c, st, name, src, match, out, n):
    """R(i): how many of the first i match; A: the list of out(x) of those, in order.  Definitions, not assumptions."""
    E = c.E; R = z3.Function('rank_' + name, I, I); A = z3.Const('list_' + name, AV); i = z3.Int('i!' + name)
    c.assume(st, z3.And(R(0) == 0, FA(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(R(i + 1) == R(i) + z3.If(match(src(i)), 1, 0), 0 <= R(i), R(i) <= i, z3.Implies(match(src(i)), z3.Select(A, R(i)) == out(src(i))))), src(i))))
    return R, A
# ---- mappings
def field(c, j): return V.s(C08_name(c, j))
def C08_name(c, j): return c.fname(c.S(j))
def setup_m(c, st):
    C08.world(c, st); E = c.E; c.fname = c.name; c.nf = c.n; flatpairs(c, st); c.own_name = c.nm; c.distinct(st, c.me, c.fields, c.pairs); x = z3.Const('x!old', V); c.assume(st, FA(x, V.r(z3.Select(c.m, x)) > 0, z3.Select(c.m, x)))
    for _, p in C08.closed(c, st, tag='0'): c.assume(st, p)
    trace(c, st, 'flat', 4); E.comp(st, 'ga.flat')
    c.R0, c.A0 = filtered(c, st, 'keyed', lambda i: z3.Select(c.pa, i), lambda p: key(p) != NONE, lambda p: p, c.pn); c.n0 = c.R0(c.pn)
    pre = z3.Concat(V.s(c.own_name), c.sep); strip = lambda p: pair(V.str(z3.SubString(V.s(key(p)), z3.Length(pre), z3.Length(V.s(key(p))) - z3.Length(pre))), val(p))
    c.R1, c.A1_ = filtered(c, st, 'own', lambda i: z3.Select(c.A0, i), lambda p: z3.PrefixOf(pre, V.s(key(p))), strip, c.n0)
    j = z3.Int('j!a0'); 
    c.A1 = z3.If(c.own_name == NONE, c.A0, c.A1_); c.n1 = z3.If(c.own_name == NONE, c.n0, c.R1(c.n0))
    c.L1 = E.fresh(AV, 'list_possible'); c.assume(st, z3.And(c.L1 == c.A1))
    # per field
    R2 = z3.Function('rank_field', I, I, I); A2 = z3.Function('list_field', I, AV); c.R2, c.A2 = R2, A2; f, i = z3.Ints('f!2 i!2'); p = z3.Select(c.L1, i); fm = lambda f, p: z3.Or(key(p) == C08_name(c, f), z3.PrefixOf(z3.Concat(field(c, f), c.sep), V.s(key(p)))); c.fm = fm
    c.assume(st, z3.And(FA(f, R2(f, 0) == 0, R2(f, 0)), FA([f, i], z3.Implies(z3.And(0 <= i, i < c.n1), z3.And(R2(f, i + 1) == R2(f, i) + z3.If(fm(f, p), 1, 0), 0 <= R2(f, i), z3.Implies(fm(f, p), z3.Select(A2(f), R2(f, i)) == p))), R2(f, i))))
    c.hit = lambda f: R2(f, c.n1) > 0
    ev = c.ev = z3.Function('earlier_fields_hit', I, I); c.assume(st, z3.And(ev(0) == 0, FA(f, z3.And(ev(f + 1) == ev(f) + z3.If(c.hit(f), 1, 0), z3.Implies(f >= 0, z3.And(0 <= ev(f), ev(f) <= f))), c.S(f))))
    return [c.me, c.pairs, c.sepv]
def item(E, st, o, i):
    if isinstance(i, SliceV):
        E.oblige(st, 'it is text', V.is_str(o), 'pre')
        for r in E.str_getitem(st, V.str(V.s(o)), i): yield r
        return
    if not isinstance(i, int) or i not in (0, 1): raise Unsupported('item of a pair')
    E.oblige(st, 'it is a pair', is_pair(o), 'pre'); yield st, z3.simplify(key(o) if i == 0 else val(o))
def env_m(E, c):
    E.iface['getitem'] = item
    def sw(E, st, o): E.oblige(st, 'it is text', V.is_str(o), 'pre'); yield st, Meth(V.str(V.s(o)), 'startswith')
    E.iface['startswith'] = sw
    C08.env(E, c); E.contracts[C_ + ':SparseDict.__setitem__'] = C08.sput; E.contracts[C_ + ':Mapping.__setitem__'] = C08.fput
    def sf(E, st, o, args, kw):
        st = st.clone(); n = cnt(E, st, 'flat'); l = E.ref(E.to_v(args[0])); sep = args[1] if len(args) == 2 and not kw else kw['sep'] if len(args) == 1 and list(kw) == ['sep'] else None
        E.setcomp(st, 'ga.flat', z3.Store(E.comp(st, 'ga.flat'), n, E.larr(st, l)), None); rec(E, st, 'flat', o, sep, V.int(E.llen(st, l)), V.int(z3.IntVal(0))); yield st, None
    E.icall['set_flat'] = sf
def inv_keyed(L): E, c, st = L.E, L.c, L.st; k = z3.Int('k!0'); o = z3.Select(E.larr(st, E.lcout), k); return [('bound', z3.And(L.i <= c.pn, 0 <= c.R0(L.i))), ('those with a key, so far', z3.And(E.llen(st, E.lcout) == c.R0(L.i), FA(k, z3.Implies(z3.And(0 <= k, k < c.R0(L.i)), z3.And(o == z3.Select(c.A0, k), is_pair(o), V.is_str(key(o)), own(val(o)))), o)))]
def inv_own(L):
    E, c, st = L.E, L.c, L.st; r = E.ref(L.var('possibles')); k = z3.Int('k!1'); o = z3.Select(E.larr(st, r), k)
    return [('bound', z3.And(L.i <= c.n0, 0 <= c.R1(L.i))), ('those under this name, so far', z3.And(E.llen(st, r) == c.R1(L.i), FA(k, z3.Implies(z3.And(0 <= k, k < c.R1(L.i)), z3.And(o == z3.Select(c.A1_, k), is_pair(o), V.is_str(key(o)), own(val(o)))), o)))]
def inv_fields(L):
    E, c, st = L.E, L.c, L.st; f = z3.Int('f!o'); return [('bound', z3.And(c.n1 > 0, L.i <= c.nf, 0 <= c.ev(L.i))), ('fields in order', FA(f, z3.Implies(z3.And(0 <= f, f < L.i, c.hit(f)), c.ev(f) < c.ev(L.i)), c.ev(f)))] + routed(c, st, L.i) + held(c, st, L.i)
def routed(c, st, n):
    E = c.E; f, k = z3.Ints('f!r k!r'); e = c.ev(f); a = lambda q: col(E, st, 'flat', q, e); g = z3.Select(E.comp(st, 'ga.flat'), e)
    return [('one import for each field with matching pairs', z3.If(c.n1 == 0, cnt(E, st, 'flat') == 0, cnt(E, st, 'flat') == c.ev(n))),
            ('each into the field, with the separator', FA(f, z3.Implies(z3.And(0 <= f, f < n, c.hit(f)), z3.And(a(0) == z3.Select(E.dmap(st, c.r), C08_name(c, f)), a(1) == c.sepv, a(2) == V.int(c.R2(f, c.n1)))), c.S(f))),
            ('of exactly its pairs, in order', FA([f, k], z3.Implies(z3.And(0 <= f, f < n, c.hit(f), 0 <= k, k < c.R2(f, c.n1)), z3.Select(g, k) == z3.Select(c.A2(f), k)), z3.Select(g, k), z3.Select(c.A2(f), k)))]
def held(c, st, n):
    E = c.E; x = z3.Const('x!h', V); d, m = E.dom(st, c.r), E.dmap(st, c.r); i = c.fs(x); took = z3.And(i < n, c.hit(i))
    return C08.closed(c, st) + [('fields without pairs are as before', FA(x, z3.Implies(z3.Not(took), z3.And(z3.Select(d, x) == z3.Select(c.d, x), z3.Select(m, x) == z3.Select(c.m, x))), z3.Select(d, x), z3.Select(m, x))), ('fields with pairs are held; one that was held stays', FA(x, z3.Implies(took, z3.And(z3.Select(d, x), z3.Implies(z3.Select(c.d, x), z3.Select(m, x) == z3.Select(c.m, x)))), z3.Select(d, x), c.fs(x))), framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r), ('children exist', FA(x, z3.Implies(z3.Select(d, x), V.r(z3.Select(m, x)) >= -st.alloc), z3.Select(m, x)))]
def inv_accum(L):
    E, c, st = L.E, L.c, L.st; f = c.fs(L.var('field')); r = E.ref(L.var('accum')); k = z3.Int('k!2'); o = z3.Select(E.larr(st, r), k); src = z3.Int('k!s')
    return [('bound', z3.And(L.i <= c.n1, 0 <= c.R2(f, L.i), 0 <= f, f < c.nf)), ('the pairs of the field, so far', z3.And(E.llen(st, r) == c.R2(f, L.i), FA(k, z3.Implies(z3.And(0 <= k, k < c.R2(f, L.i)), o == z3.Select(c.A2(f), k)), o)))] + same_since(L)
def same_since(L):
    E, c, st = L.E, L.c, L.st; return []
def post_m(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    return routed(c, st, c.nf) + held(c, st, c.nf)
def setup_m2(c, st): a = setup_m(c, st); return a
# ---- export
def env_x(E, c):
    for nm in ('flattenable', 'children_flattenable'):
        E.iface[nm] = E.iface[STR + '.' + nm] = lambda E, st, o, nm=nm: iter([(st, V.bool(E.uf('is_' + nm, I, B)(E.ref(o))))])
    def kids(E, st, o): yield st, ListIter(E.ref(c.kids)) if 0 else c.kids
    E.iface['all_children'] = E.iface[STR + '.all_children'] = kids
    def par(E, st, o): r = E.ref(o); yield st, SeqVal(c.pn_(r), c.pa_(r))
    E.iface['parents'] = par
    def fn(E, st, o, args, kw): yield st, V.str(c.fname(E.ref(o), V.s(E.to_v(args[0]))))
    E.icall['flattened_name'] = fn
    E.contracts[EL + '.flattened_name'] = lambda E, st, b, f: iter([(st, V.str(c.fname(E.ref(b['self']), V.s(E.to_v(b['sep'])))))])
    def call(E, st, f, args, kw):
        if not E.to_v(f).eq(c.value) or len(args) != 1 or kw: raise Unsupported('call of an unknown value')
        st = st.clone(); r = E.fresh(V, 'shown'); st.pc = st.pc + (r != ABSENT, z3.Implies(V.is_obj(r), V.r(r) > 0)); rec(E, st, 'show', args[0], r); yield st, r
    E.extcall = call
def setup_x(c, st):
    E = c.E; c.me = c.obj(st, 'element', STR); c.kids = c.list(st, 'descendants'); c.value = c.sym('value'); c.sep = c.sym('sep', S); c.distinct(st, c.me, c.kids); c.assume(st, z3.And(V.is_obj(c.value), V.r(c.value) > 0)); c.n, c.a = E.llen(st, E.ref(c.kids)), E.larr(st, E.ref(c.kids)); j = z3.Int('j!k'); s = z3.Select(c.a, j)
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(s), V.r(s) > 0, s != c.me)), s)); c.fname = z3.Function('flattened_name', I, S, S); c.pn_ = z3.Function('number_of_parents', I, I); c.pa_ = z3.Function('parents', I, AV); r = z3.Int('r!pp'); k = z3.Int('k!po'); pk = z3.Select(c.pa_(r), k); c.assume(st, z3.And(FA(r, c.pn_(r) >= 0, c.pn_(r)), FA([r, k], z3.And(V.is_obj(pk), V.r(pk) > 0), pk))); trace(c, st, 'show', 2)
    c.flat = lambda v: E.uf('is_flattenable', I, B)(E.ref(v)); cf = lambda v: E.uf('is_children_flattenable', I, B)(E.ref(v)); c.cf = cf; k = z3.Int('k!pp'); c.open = z3.Function('all_parents_export_children', V, B); x = z3.Const('x!op', V)
    pk = z3.Select(c.pa_(V.r(x)), k); w = z3.Function('parent_not_exporting', V, I); pw = z3.Select(c.pa_(V.r(x)), w(x)); c.assume(st, z3.And(FA([x, k], z3.Implies(z3.And(c.open(x), 0 <= k, k < c.pn_(V.r(x))), cf(pk)), (c.open(x), pk)), FA(x, z3.Or(c.open(x), z3.And(0 <= w(x), w(x) < c.pn_(V.r(x)), z3.Not(cf(pw)))), c.open(x))))
    c.listed = lambda p: z3.And(c.flat(p), c.open(p)); c.R, c.A = filtered(c, st, 'listed', lambda i: z3.Select(c.a, i), c.listed, lambda p: p, c.n); return [c.me, V.str(c.sep), c.value]
def first(c): return z3.If(c.flat(c.me), z3.IntVal(1), z3.IntVal(0))
def upto(c, st, r, i):
    E = c.E; k = z3.Int('k!x'); f = first(c); x = z3.Select(E.larr(st, r), k); e = z3.If(z3.And(k == 0, c.flat(c.me)), c.me, z3.Select(c.A, k - f)); return [('as many', E.llen(st, r) == f + c.R(i)), ('as many values asked for', cnt(E, st, 'show') == f + c.R(i)), ('each with its flattened name and what the callable gives for it', FA(k, z3.Implies(z3.And(0 <= k, k < f + c.R(i)), z3.And(col(E, st, 'show', 0, k) == e, x == pair(V.str(c.fname(V.r(e), c.sep)), col(E, st, 'show', 1, k)))), x, col(E, st, 'show', 0, k)))]
def inv_x(L):
    """the pairs of the descendants listed so far are collected"""
    c, st, E = L.c, L.st, L.E; r = L.out; k = z3.Int('k!ix'); f = first(c); x = z3.Select(E.larr(st, r), k); sh = lambda q: col(E, st, 'show', q, f + k); e = z3.Select(c.A, k)
    return [('bound', z3.And(L.i <= c.n, 0 <= c.R(L.i))), ('as many', E.llen(st, r) == c.R(L.i)), ('as many values asked for', cnt(E, st, 'show') == f + c.R(L.i)), ('each with its flattened name and what the callable gives for it', FA(k, z3.Implies(z3.And(0 <= k, k < c.R(L.i)), z3.And(sh(0) == e, x == pair(V.str(c.fname(V.r(e), c.sep)), sh(1)))), x)), ('the element itself comes first', z3.Implies(c.flat(c.me), z3.And(col(E, st, 'show', 0, 0) == c.me, col(E, st, 'show', 1, 0) == col(E, L.st0, 'show', 1, 0))))]
def inv_all(L): c = L.c; k = z3.Int('k!al'); p = z3.Select(L.src.arr, k); return [('bound', L.i <= L.src.n), ('all so far', FA(k, z3.Implies(z3.And(0 <= k, k < L.i), c.cf(p)), p))]
def post_x(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; n = c.sym('exported', I); return [(nm, z3.Implies(n == z3.If(c.cf(c.me), c.n, z3.IntVal(0)), f)) for nm, f in upto(c, st, E.ref(E.to_v(r)), n)]
def contracts(P):
    out = [Contract('Scalar._set_flat', SC + '._set_flat', setup_s, post_s, env=env_s, loops=[LoopSpec('pairs', inv_s)])]
    def lp(): return [LoopSpec('keyed pairs', inv_keyed, kind='ListComp', match=lambda E, st, fr, node, src: node is None or node._ != 'For'), LoopSpec('own pairs', inv_own, match=lambda E, st, fr, node, src: node is not None and node._ == 'For' and names(node) == {'key', 'value'} and (fr.sid, 'accum') not in st.loc),
                     LoopSpec('pairs of a field', inv_accum, match=lambda E, st, fr, node, src: node is not None and node._ == 'For' and (fr.sid, 'accum') in st.loc and names(node) == {'key', 'value'}), LoopSpec('fields', inv_fields, match=lambda E, st, fr, node, src: node is not None and node._ == 'For' and names(node) != {'key', 'value'})]
    if FLATTEN: out.append(Contract('Element.flatten', EL + '.flatten', setup_x, post_x, env=env_x, loops=[LoopSpec('descendants', inv_x, match=lambda E, st, fr, node, src: not isinstance(src, SeqVal)), LoopSpec('parents', inv_all, match=lambda E, st, fr, node, src: isinstance(src, SeqVal))]))
    for cls, q in ((C08.FULL, 'Dict'), (C08.SPARSE, 'SparseDict')):
        def en(E, c, cls=cls): c.cls = cls; env_m(E, c)
        out.append(Contract('%s._set_flat' % q, C_ + ':Mapping._set_flat', setup_m, post_m, env=en, loops=lp()))
    return out
def names(node): t = node.target; return {x.id for x in t.elts} if t._ == 'Tuple' else {t.id}
FLATTEN = True
ASSUMPTIONS = ['flatten: flattenable and children_flattenable are booleans; all_children lists the descendants (C05); the given callable does not change the tree', 'keys of flat pairs are text or None; values are not children of the mapping itself', 'Element.set and set_flat of a field do not touch the mapping or the list of pairs (contracts of the field, checked at their own functions)', 'the mapping starts well formed: the invariant of C08 (children keyed by field name, parented)', 'field names are distinct text without the empty name clashing with None']
