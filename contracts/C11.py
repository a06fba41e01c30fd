"""C11: fully qualified names: a name for every level, and looking them up walks back down."""
from common import *
import C06
B_ = 'flatland.schema.base'
EL, LIST = B_ + ':Element', '__builtin__:list'
def elem(v): return z3.And(V.is_obj(v), V.r(v) > 0)
US = z3.StringVal('')
# ---- lookup
def setup_e(how):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'element', EL); c.sep = c.sym('sep', S); c.assume(st, c.sep != US); c.Root = E.to_v(E.lookup_global(st, B_, 'Root')); j = z3.Int('j!n'); e, x = z3.Consts('e!n x!n', V)
        c.ok, c.child, c.root = E.uf('has child', V, V, B), E.uf('child of', V, V, V), E.uf('root of', V, V); c.assume(st, z3.And(FA([e, x], elem(c.child(e, x)), c.child(e, x)), FA(e, elem(c.root(e)), c.root(e))))
        if how == 'text':
            c.text = c.sym('path', S); path = V.str(c.text); c.abs = z3.PrefixOf(c.sep, c.text); c.whole = c.text == c.sep; rest = z3.SubString(c.text, z3.Length(c.sep), z3.Length(c.text) - z3.Length(c.sep)); t = z3.If(c.abs, rest, c.text)
            c.SN, c.SA = E.uf('split into', S, S, I), E.uf('split', S, S, AV); s1, s2 = z3.Strings('s!1 s!2'); y = z3.Select(c.SA(s1, s2), j); c.assume(st, z3.And(FA([s1, s2], c.SN(s1, s2) >= 1, c.SN(s1, s2)), FA([s1, s2, j], V.is_str(y), y)))
            c.n = c.sym('names', I); c.A = c.sym('name_list', AV); c.assume(st, z3.And(c.n == z3.If(c.whole, 0, c.SN(t, c.sep)), c.A == c.SA(t, c.sep))); c.none = z3.BoolVal(False)
        else:
            path = c.list(st, 'path'); c.distinct(st, c.me, path); n, a = E.llen(st, E.ref(path)), E.larr(st, E.ref(path)); c.abs = z3.And(n > 0, z3.Select(a, 0) == c.Root); c.none = n == 0; y = z3.Select(a, j); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Or(V.is_str(y), y == c.Root)), y))
            c.n = c.sym('names', I); c.A = c.sym('name_list', AV); z = z3.Select(c.A, j); c.assume(st, z3.And(c.n == z3.If(c.abs, n - 1, n), FA(j, z == z3.Select(a, z3.If(c.abs, j + 1, j)), z)))
        # the walk (definition)
        c.W = E.uf('walk', I, V); c.stop = c.sym('found', I); nm = z3.Select(c.A, j); good = c.ok(c.W(j), nm)
        c.assume(st, z3.And(c.W(0) == z3.If(c.abs, c.root(c.me), c.me), 0 <= c.stop, c.stop <= c.n, FA(j, z3.Implies(z3.And(0 <= j, j < c.stop), z3.And(good, c.W(j + 1) == c.child(c.W(j), nm))), c.W(j)), z3.Implies(c.stop < c.n, z3.Not(c.ok(c.W(c.stop), z3.Select(c.A, c.stop))))))
        return [c.me, path, V.str(c.sep)]
    return f
def env_e(E, c):
    E.iface['root'] = E.iface[EL + '.root'] = lambda E, st, o: iter([(st, c.root(E.to_v(o)))])
    def index(E, st, o, args, kw):
        if len(args) != 1 or kw: raise Unsupported('_index')
        e, d = E.to_v(o), E.to_v(args[0])
        for s, b in E.split(st, c.ok(e, d)):
            if b: yield s, c.child(e, d)
            else:
                for x in ('KeyError', 'IndexError'): yield s.clone(), Exc(x)
    E.icall['_index'] = index; E.contracts[EL + '._index'] = lambda E, st, b, f: index(E, st, b['self'], [b[1]], {})
    def sp(E, st, o, args, kw):
        if len(args) != 1 or kw: raise Unsupported('split')
        s = E.strof(o); p = E.strof(args[0]); st = st.clone(); yield st, E.newlist_sym(st, c.SN(s, p), c.SA(s, p))
    E.ext['str.split'] = sp
def inv_e(L):
    E, c, st = L.E, L.c, L.st; r = E.ref(L.var('names')); j = z3.Int('j!e'); x = z3.Select(E.larr(st, r), j); e = E.to_v(L.var('element'))
    return [('bound', z3.And(L.i <= c.n, L.i <= c.stop)), ('where the walk is', z3.And(e == c.W(L.i), elem(e))), ('the names to go', z3.And(E.llen(st, r) == c.n - L.i, FA(j, z3.Implies(z3.And(0 <= j, j < c.n - L.i), x == z3.Select(c.A, j + L.i)), x)))]
def post_e(c, st, r):
    if isexc(r): return [('only KeyError (not %s)' % r.cls, isexc(r, 'KeyError')), ('only when a name does not exist', z3.Or(c.none, c.stop < c.n))]
    return [('every name exists', z3.And(z3.Not(c.none), c.stop == c.n)), ('the element the names lead to', c.E.to_v(r) == c.W(c.n))]
# ---- naming
def setup_n(top):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'element', EL); c.sep = c.sym('sep', S); k, j = z3.Ints('k!n j!n'); e = z3.Const('e!n', V)
        c.parent, c.slot, c.inlist, c.name = E.uf('parent of', V, V), E.uf('is a slot', V, B), E.uf('is a list', V, B), E.uf('name of', V, V); c.MN, c.MA, c.pos = E.uf('members', V, I), E.uf('member list', V, AV), E.uf('position', V, I)
        # the chain from the root down to the element: chain(0) is the root, chain(depth) the element
        c.depth = c.sym('depth', I); c.ch = ch = E.uf('chain', I, V); c.assume(st, z3.And(c.depth > 0 if not top else c.depth == 0, ch(c.depth) == c.me, c.parent(ch(0)) == NONE))
        c.assume(st, FA(k, z3.Implies(z3.And(0 <= k, k <= c.depth), z3.And(elem(ch(k)), z3.Implies(k > 0, c.parent(ch(k)) == ch(k - 1)))), ch(k)))
        x = lambda k: ch(k + 1); key = lambda k: z3.If(c.slot(ch(k)), c.name(ch(k)), z3.If(c.inlist(ch(k)), V.str(E.uf('decimal', I, S)(c.pos(x(k)))), c.name(x(k)))); c.key = key; m = lambda e: c.name(e)
        c.assume(st, z3.And(z3.Not(c.slot(c.me)), z3.Not(c.slot(ch(0)))))
        # slots have a text name and hold elements, members of lists without slots are at their position in them
        c.assume(st, FA(k, z3.Implies(z3.And(0 <= k, k < c.depth), z3.And(z3.Implies(c.slot(x(k)), z3.And(z3.Not(c.slot(ch(k))), V.is_str(m(x(k))), V.s(m(x(k))) != US)), z3.Implies(c.slot(ch(k)), z3.Not(c.inlist(ch(k)))),
            z3.Implies(z3.And(c.inlist(ch(k)), z3.Not(c.slot(x(k)))), z3.And(0 <= c.pos(x(k)), c.pos(x(k)) < c.MN(ch(k)), z3.Select(c.MA(ch(k)), c.pos(x(k))) == x(k))))), ch(k)))
        c.assume(st, z3.And(FA(e, c.MN(e) >= 0, c.MN(e)), FA([k, j], z3.Implies(z3.And(0 <= k, k < c.depth, c.inlist(ch(k)), 0 <= j, j < c.pos(x(k))), z3.Select(c.MA(ch(k)), j) != x(k)), (x(k), z3.Select(c.MA(ch(k)), j)))))
        # the names: one for each level but slots (definition)
        c.R, c.N = E.uf('levels named before', I, I), c.sym('names', AV); c.assume(st, z3.And(c.R(0) == 0, FA(k, z3.Implies(z3.And(0 <= k, k < c.depth), z3.And(c.R(k + 1) == c.R(k) + z3.If(c.slot(x(k)), 0, 1), 0 <= c.R(k), z3.Implies(z3.Not(c.slot(x(k))), z3.Select(c.N, c.R(k)) == key(k)))), c.R(k), x(k))))
        trace(c, st, 'join', 2); E.comp(st, 'ga.joined'); return [c.me, V.str(c.sep)]
    return f
def env_n(E, c):
    for q in ('', EL + '.'):
        E.iface[q + 'parent'] = lambda E, st, o: iter([(st, c.parent(E.to_v(o)))]); E.iface[q + 'name'] = lambda E, st, o: iter([(st, c.name(E.to_v(o)))])
    def ps(E, st, o):       # contract of parents: C05
        if not E.to_v(o).eq(c.me): raise Unsupported('parents of another element')
        st = st.clone(); a = E.fresh(AV, 'parents'); j = z3.Int('j!p'); st.pc = st.pc + (FA(j, z3.Implies(z3.And(0 <= j, j < c.depth), z3.Select(a, j) == c.ch(c.depth - 1 - j)), z3.Select(a, j)),); yield st, SeqVal(c.depth, a)
    E.iface['parents'] = E.iface[EL + '.parents'] = ps
    def isi(E, st, args, kw):
        v, k = E.to_v(args[0]), args[1]; q = getattr(k, 'q', None)
        if q == B_ + ':Slot': yield st, V.bool(c.slot(v))
        elif q == '__builtin__:list': yield st, V.bool(c.inlist(v))
        else: raise Unsupported('isinstance')
    E.ext['isinstance'] = isi
    E.iface['iter'] = lambda E, st, o: iter([(st, SeqVal(c.MN(E.to_v(o)), c.MA(E.to_v(o))))])
    def join(E, st, o, args, kw):
        for s, n, a in E.seqarg(st, args[0], None):
            s = s.clone(); i = cnt(E, s, 'join'); t = E.fresh(S, 'joined'); E.setcomp(s, 'ga.joined', z3.Store(E.comp(s, 'ga.joined'), i, a), None); rec(E, s, 'join', o, V.int(n)); c.text = t; yield s, V.str(t)
    E.ext['str.join'] = join
    E.ext['unicode'] = lambda E, st, args, kw: iter([(st, V.str(E.uf('decimal', I, S)(V.i(E.to_v(args[0])))))])
def done(c, st, n, a, i): j = z3.Int('j!d'); x = z3.Select(a, j); return [('as many', n == c.R(i)), ('a name for each level', FA(j, z3.Implies(z3.And(0 <= j, j < c.R(i)), x == z3.Select(c.N, j)), x, z3.Select(c.N, j)))]
def inv_n(L):
    E, c, st = L.E, L.c, L.st; r = E.ref(L.var('parts')); mask = E.to_v(L.var('mask')); c.k = L.i if z3.is_const(L.i) and not z3.is_int_value(L.i) else getattr(c, 'k', None)
    q = z3.Int('q!n'); oth = [FP(q, z3.Implies(z3.And(q >= -L.st0.alloc, q != r), z3.Select(E.comp(st, nm), q) == z3.Select(E.comp(L.st0, nm), q)), z3.Select(E.comp(st, nm), q)) for nm in ('llen', 'lel')]
    return [('bound', L.i <= c.depth), ('level', elem(c.ch(L.i))), ('the pending slot', mask == z3.If(c.slot(c.ch(L.i)), c.name(c.ch(L.i)), NONE)), ('other lists are as before', z3.And(oth))] + done(c, st, E.llen(st, r), E.larr(st, r), L.i)
def inv_m(L):
    E, c, st = L.E, L.c, L.st; k = c.k; return [('bound', L.i <= c.MN(c.ch(k))), ('not passed yet', L.i <= c.pos(c.ch(k + 1)))] + [('lists are as before', z3.And([z3.Select(E.comp(st, nm), E.ref(L.var('parts'))) == z3.Select(E.comp(L.st0, nm), E.ref(L.var('parts'))) for nm in ('llen', 'lel')]))]
def post_n(top):
    def f(c, st, r):
        if isexc(r): return [('no exception (not %s)' % r.cls, False)]
        E = c.E; r = E.to_v(r)
        if top: return [('the root is the separator', r == V.str(c.sep))]
        a = z3.Select(E.comp(st, 'ga.joined'), 0); return [('the separator, and the names joined by it', z3.And(cnt(E, st, 'join') == 1, col(E, st, 'join', 0, 0) == V.str(c.sep), r == V.str(z3.Concat(c.sep, c.text)) if hasattr(c, 'text') else False))] + done(c, st, V.i(col(E, st, 'join', 1, 0)), a, c.depth)
    return f
# ---- one step down
LISTC = C06.LIST
def ixenv(cls):
    def env(E, c): c.cls = cls; C06.env(E, c)
    return env
def setup_ix(c, st):
    C06.world(c, st); E = c.E; c.nm = c.sym('name', S); c.isnum = E.uf('int_ok', V, B)(V.str(c.nm)); c.assume(st, z3.Implies(c.isnum, c.ix == E.uf('int_of', V, I)(V.str(c.nm)))); return [c.me, V.str(c.nm)]
def post_ix(c, st, r):
    if isexc(r): return [('only LookupError (not %s)' % r.cls, r.cls in ('IndexError', 'KeyError', 'LookupError')), ('only when there is no such member', z3.Or(z3.Not(c.isnum), z3.Not(C06.inrange(c))))] + C06.same(c, st)
    return [('the member at that index', z3.And(c.isnum, C06.inrange(c), c.E.to_v(r) == C06.before(c, C06.absix(c))))] + C06.same(c, st)
DICT = 'flatland.schema.containers:Dict'
def setup_mp(c, st): E = c.E; c.me = c.obj(st, 'mapping', DICT); c.k = c.sym('key'); c.r = E.ref(c.me); c.d, c.m = E.dom(st, c.r), E.dmap(st, c.r); return [c.me, c.k]
def post_mp(c, st, r):
    has = z3.Select(c.d, c.k); E = c.E; same = ('nothing changes', z3.And(E.dom(st, c.r) == c.d, E.dmap(st, c.r) == c.m))
    if isexc(r): return [('only LookupError (not %s)' % r.cls, r.cls in ('IndexError', 'KeyError', 'LookupError')), ('only without such a field', z3.Not(has)), same]
    return [('the field of that name', z3.And(has, E.to_v(r) == z3.Select(c.m, c.k))), same]
def setup_sc(c, st): c.me = c.obj(st, 'scalar', 'flatland.schema.scalars:Scalar'); return [c.me, c.sym('name')]
def post_sc(c, st, r): return [('a scalar has no children: LookupError', isexc(r, 'IndexError', 'KeyError', 'LookupError'))]
def contracts(P):
    isfor = lambda node: node is not None and node._ == 'For'
    return [Contract('Element.el(%s)' % h, EL + '.el', setup_e(h), post_e, env=env_e, loops=[LoopSpec('names', inv_e, kind='While')]) for h in ('text', 'iterable')] + [
        Contract('Element.fq_name', EL + '.fq_name', setup_n(False), post_n(False), env=env_n, loops=[LoopSpec('levels', inv_n, match=lambda E, st, fr, node, src: isfor(node) and node.target._ == 'Name'), LoopSpec('members', inv_m, match=lambda E, st, fr, node, src: isfor(node) and node.target._ == 'Tuple')]),
        Contract('Sequence._index(Array)', C06.C_ + ':Sequence._index', setup_ix, post_ix, env=ixenv(C06.ARRAY)), Contract('Sequence._index(List)', C06.C_ + ':Sequence._index', setup_ix, post_ix, env=ixenv(LISTC)), Contract('Mapping._index', C06.C_ + ':Mapping._index', setup_mp, post_mp), Contract('Scalar._index', 'flatland.schema.scalars:Scalar._index', setup_sc, post_sc),
        Contract('Element.fq_name(root)', EL + '.fq_name', setup_n(True), post_n(True), env=env_n)]
ASSUMPTIONS = ['parents is the chain of parents from the nearest to the root (proved: C05)', '_index gives the child a name or index selects or raises LookupError', 'a member of a sequence without slots is in it once; a list slot has its index as a text name, holds an element and is in a list (C06)', 'the element itself is not a list slot']
