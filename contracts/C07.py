"""C07: a list rebuilt from flat pairs: one member per index that remains (pruning) or per index up to the highest, at most the cap; each gets its pairs in order."""
from common import *
import re._parser as sre
import C06, C22
LIST = C06.LIST
BASE, US = 'flatland.util.base', z3.StringVal('')
key, val, pair = C22.key, C22.val, C22.pair
# ---- regular expressions: a pattern built from literal text and escaped text, in a normal form
def pieces(t):
    """text term -> list of literal str and escaped terms"""
    t = z3.simplify(t)
    if z3.is_string_value(t): return [z3str_(t)]
    if z3.is_app(t) and t.decl().name() == 'seq.++' or t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [y for x in t.children() for y in pieces(x)]
    if z3.is_app(t) and t.decl().name() == 're_escape': return [t.arg(0)]
    raise Unsupported('regular expression built from unescaped text')
def z3str_(t): return t.as_string().replace('\\u{5c}', '\\')
def normal(E, t, flags):
    ps = pieces(t); args, tmpl = [], ''
    for p in ps:
        if isinstance(p, str): tmpl += p
        else: tmpl += chr(0xe000 + len(args)); args.append(z3.simplify(p))
    tree = [x for x in sre.parse(tmpl, 32 if flags else 0)]
    while tree and str(tree[0][0]) == 'AT' and str(tree[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'): tree = tree[1:]     # match() starts there anyway
    return '%s/%s' % (show(tree), flags), args
def show(x):
    if isinstance(x, (list, sre.SubPattern)): return '[' + ' '.join(show(y) for y in x) + ']'
    if isinstance(x, tuple): return '(' + ' '.join(show(y) for y in x) + ')'
    return str(x)
def rx(E, form, args):
    """the meaning of the pattern: whether it matches a key, the text of the match and of its first group"""
    h = 'rx:' + form; s = [S] * len(args)
    return (lambda k: E.uf(h + ' matches', *(s + [S, B]))(*(args + [k])), lambda k: E.uf(h + ' text', *(s + [S, S]))(*(args + [k])), lambda k: E.uf(h + ' group 1', *(s + [S, S]))(*(args + [k])))
def env(E, c):
    C06.env_set(E, c); c.rx = {}; c.ms = []
    esc = z3.Function('re_escape', S, S)
    E.contracts[BASE + ':re_uescape'] = lambda E, st, b, f: iter([(st, V.str(esc(E.strof(b[list(b.d if hasattr(b, 'd') else b)[0]]))))])
    E.ext['re.escape'] = lambda E, st, args, kw: iter([(st, V.str(esc(E.strof(args[0]))))])
    def comp(E, st, args, kw):
        fl = list(args[1:]) + list(kw.values()); fl = [x.name.split('.')[-1] if isinstance(x, BI) else {32: 'UNICODE', 0: None}.get(E.from_v(x), '?') for x in fl]; fl = [{'U': 'UNICODE'}.get(x, x) for x in fl if x]
        if set(fl) - {'UNICODE'}: raise Unsupported('flags of a regular expression')
        form, a = normal(E, E.strof(args[0]), ','.join(sorted(set(fl)))); k = form + '|' + '|'.join(x.sexpr() for x in a); c.rx[k] = (form, a); yield st, Regex(k, 0)
    E.ext['re.compile'] = comp
    def match(E, st, o, args, kw):
        form, a = c.rx[o.pattern]; ok, g0, g1 = rx(E, form, a); k = E.strof(args[0])
        for s, b in E.split(st, ok(k)):
            if not b: yield s, None; continue
            s = s.clone(); m = E.alloc(s); s.pc = s.pc + (E.truth(s, m),); E.setf(s, E.ref(m), 'g0', V.str(g0(k))); E.setf(s, E.ref(m), 'g1', V.str(g1(k))); c.ms.append(m); yield s, m
    E.ext['re.match'] = match
    def app(E, st, o): st = st.clone(); E.setclass(st, o, '__builtin__:list'); yield st, Meth(o, 'append')
    E.iface['append'] = app
    def truth(E, st, o):
        v = E.to_v(o)
        if any(v.eq(E.to_v(x)) for x in c.ms): l = z3.BoolVal(True)
        elif v.eq(c.lname): l = z3.And(v != NONE, v != V.str(US))
        else: l = E.llen(st, E.ref(o)) > 0
        return E.split(st, l)
    E.iface['truth'] = truth
    def group(E, st, o, args, kw):
        n = E.from_v(args[0]) if args else 0
        if n not in (0, 1): raise Unsupported('group')
        yield st, E.getf(st, E.ref(o), 'g%d' % n)
    E.icall['group'] = group
    def end(E, st, o, args, kw):
        if args: raise Unsupported('end of a group')
        yield st, V.int(z3.Length(V.s(E.getf(st, E.ref(o), 'g0'))))
    E.icall['end'] = end
    E.iface['getitem'] = C22.item
    def new_list(s, v): E.setf(s, E.ref(v), 'owner', E.last_default_key)
    E.on_default = new_list
    create = E.extcall
    def create2(E, st, f, args, kw):
        for s, v in create(E, st, f, args, kw):
            if not isinstance(v, Exc): E.setf(s, E.ref(v), 'flats', V.int(0))
            yield s, v
    E.extcall = create2
    def sf(E, st, o, args, kw):
        st = st.clone(); l = E.ref(E.to_v(args[0])); sep = args[1] if len(args) == 2 and not kw else kw['sep'] if len(args) == 1 and list(kw) == ['sep'] else None
        r = E.ref(o); n = E.getf(st, r, 'flats'); E.oblige(st, 'a member gets pairs once', n == V.int(0), 'pre')
        E.setf(st, r, 'flats', V.int(1)); E.setf(st, r, 'sep', sep); E.setf(st, r, 'count', V.int(E.llen(st, l))); E.setcomp(st, 'ga.flat', z3.Store(E.comp(st, 'ga.flat'), r, E.larr(st, l)), None); yield st, None
    E.icall['set_flat'] = sf
    def srt(E, st, args, kw):
        if len(args) != 1 or kw: raise Unsupported('sorted')
        d = E.from_v(args[0]); q = E.classof(st, d)
        if q is None or not E.isdictlike(q): raise Unsupported('sorted of something else')
        st = st.clone(); dom = E.dom(st, E.ref(d)); w = E.fresh(V, 'differs'); st.pc = st.pc + tuple(c.defs) + (z3.Or(dom == c.want, z3.Select(dom, w) != z3.Select(c.want, w)),)      # sets with the same elements are the same
        yield st, E.newlist_sym(st, c.N(dom), c.K(dom))
    E.ext['sorted'] = srt
    def mm(E, st, args, kw, mn):
        d = E.from_v(args[0]); q = E.classof(st, d)
        if mn or len(args) != 1 or kw or q is None or not E.isdictlike(q): raise Unsupported('min/max')
        dom = E.dom(st, E.ref(d)); k0 = z3.Const('k!mx', V)
        for s, b in E.split(st, dom == z3.K(V, False)):
            if b: yield s, Exc('ValueError'); continue
            s = s.clone(); w = E.fresh(V, 'differs'); t = V.int(c.top); s.pc = s.pc + tuple(c.defs) + (z3.Or(dom == c.want, z3.Select(dom, w) != z3.Select(c.want, w)), seen(E, z3.Select(dom, t)), seen(E, z3.Select(dom, V.int(V.i(w)))), seen(E, z3.Select(c.want, t))); r = E.fresh(I, 'max'); x = z3.Const('x!mx', V); s.pc = s.pc + (z3.Select(dom, V.int(r)), FP(x, z3.Implies(z3.Select(dom, x), V.i(x) <= r), z3.Select(dom, x))); yield s, V.int(r)
    E.ext['minmax'] = mm
    E.assumed.add('sorted() of a set of integers lists it in ascending order; max() is the greatest')
DOM = z3.ArraySort(V, B)
def seen(E, t): return E.uf('seen', B, I)(t) == 0      # says nothing; makes the solver look at t
def setup(how):
    def f(c, st):
        # any list: what was in it before is dropped, so nothing is said about it
        E = c.E; c.stw = st; c.me = c.list(st, 'sequence', LIST); c.r = E.ref(c.me); c.n, c.a = E.llen(st, c.r), E.larr(st, c.r); c.schema = c.sym('member_schema'); E.setf(st, c.r, 'member_schema', c.schema); c.assume(st, V.is_sym(c.schema)); pin(c, st, c.me, LIST, 'slot_type')
        for nm in ('name', 'parent', 'element'): E.comp(st, 'f.' + nm)
        trace(c, st, 'new', 2); trace(c, st, 'set', 2); C22.flatpairs(c, st); c.distinct(st, c.me, c.pairs)
        c.lname = c.sym('name') if how == 'named' else None
        if how == 'named': c.assume(st, z3.And(V.is_str(c.lname), V.s(c.lname) != US)); E.setf(st, c.r, 'name', c.lname)
        else: c.lname = c.sym('name'); c.assume(st, z3.Or(c.lname == NONE, c.lname == V.str(US))); E.setf(st, c.r, 'name', c.lname)
        c.prune, c.cap = c.sym('prune_empty', B), c.sym('maximum_set_flat_members', I); c.assume(st, c.cap >= 0); E.setf(st, c.r, 'prune_empty', V.bool(c.prune)); E.setf(st, c.r, 'maximum_set_flat_members', V.int(c.cap))
        # the pattern a key must match: the name and the separator, digits, then the separator or the end
        pre = [z3.Concat(V.s(c.lname), c.sep)] if how == 'named' else []
        tm = ('\ue000' if pre else '') + '(\\d+)(?:%s|\\Z)' % chr(0xe000 + len(pre)); form = '%s/%s' % (show([x for x in sre.parse(tm, 32)]), 'UNICODE'); ok, g0, g1 = rx(E, form, [z3.simplify(x) for x in pre + [c.sep]])
        k = z3.String('k!rx'); num = lambda s: E.uf('int_of', V, I)(V.str(s)); c.assume(st, FP(k, z3.Implies(ok(k), z3.And(E.uf('int_ok', V, B)(V.str(g1(k))), num(g1(k)) >= 0, z3.PrefixOf(g0(k), k))), ok(k)))
        c.valid = lambda p: z3.And(key(p) != NONE, ok(V.s(key(p))), z3.Not(z3.And(c.prune, E.eq(st, val(p), V.str(US))))); c.index = lambda p: num(g1(V.s(key(p))))
        rest = lambda p: z3.SubString(V.s(key(p)), z3.Length(g0(V.s(key(p)))), z3.Length(V.s(key(p))) - z3.Length(g0(V.s(key(p))))); c.out = lambda p: pair(z3.If(rest(p) == US, NONE, V.str(rest(p))), val(p))
        # R(x, i): how many of the first i pairs belong to index x; A(x): those, in order (definitions)
        R, A = c.R, c.A = z3.Function('pairs_of_index', I, I, I), z3.Function('list_of_index', I, AV); x, i = z3.Ints('x!R i!R'); p = z3.Select(c.pa, i)
        VLD, IX, OT = z3.Function('pair_counts', I, B), z3.Function('pair_index', I, I), z3.Function('pair_given', I, V); hit = z3.And(VLD(i), IX(i) == x)
        c.assume(st, z3.And(FP(i, VLD(i) == c.valid(p), p), FP(i, z3.Implies(VLD(i), z3.And(IX(i) == c.index(p), OT(i) == c.out(p))), p)))
        c.assume(st, z3.And(FP(x, R(x, 0) == 0, R(x, 0)), FP([x, i], z3.Implies(z3.And(0 <= i, i < c.pn), z3.And(R(x, i + 1) == R(x, i) + z3.If(hit, 1, 0), 0 <= R(x, i), z3.Implies(hit, z3.Select(A(x), R(x, i)) == c.out(p)))), (R(x, i), p))))
        # the indexes that remain, and the ascending list of a set of indexes
        c.defs = []       # definitions, told to the solver where they matter
        c.want = z3.Const('remaining_indexes', DOM); v = z3.Const('v!w', V); wv = z3.Select(c.want, v); c.defs.append(z3.And(FP(v, z3.Implies(wv, z3.And(V.is_int(v), R(V.i(v), c.pn) > 0)), wv), FP(v, z3.Or(wv, z3.Not(V.is_int(v)), R(V.i(v), c.pn) <= 0), wv)))
        c.N, c.K = z3.Function('size_of', DOM, I), z3.Function('ascending', DOM, AV); d = z3.Const('d!a', DOM); c.defs.append(FP(d, c.N(d) >= 0, c.N(d))); j, k = z3.Ints('j!as k!as'); e = lambda j: z3.Select(c.K(d), j)
        c.defs.append(z3.And(FP([d, j], z3.Implies(z3.And(0 <= j, j < c.N(d)), z3.Select(d, e(j))), e(j)), FP([d, j, k], z3.Implies(z3.And(0 <= j, j < k, k < c.N(d)), V.i(e(j)) < V.i(e(k))), (e(j), e(k)))))
        c.top = c.sym('highest', I); c.defs.append(FP(v, z3.Implies(z3.Select(c.want, v), V.i(v) <= c.top), z3.Select(c.want, v)))
        x = z3.Int('x!tp'); c.nothing = z3.Bool('no_index_remains'); w = z3.Const('some_index', V); c.defs.append(z3.And(z3.Implies(c.nothing, FP(v, z3.Not(z3.Select(c.want, v)), z3.Select(c.want, v))), z3.Implies(z3.Not(c.nothing), z3.And(z3.Select(c.want, w), z3.Select(c.want, V.int(c.top))))))
        for nm in ('flats', 'sep', 'count', 'owner', 'g0', 'g1'): E.comp(st, 'f.' + nm)
        E.comp(st, 'ga.flat'); return [c.me, c.pairs, c.sepv]
    return f
def inv_pairs(L):
    """what is kept under each index so far"""
    E, c, st = L.E, L.c, L.st; d = L.var('indexes'); r = E.ref(d); dom, m = E.dom(st, r), E.dmap(st, r); x, k, q = z3.Int('x!p'), z3.Int('k!p'), z3.Int('q!p'); v = z3.Const('v!p', V); l = z3.Select(m, V.int(x)); lr = V.r(l); n, a = z3.Select(E.comp(st, 'llen'), lr), z3.Select(E.comp(st, 'lel'), lr); h0 = lambda nm: E.comp(L.st0, nm); h = lambda nm: E.comp(st, nm)
    return [('bound', L.i <= c.pn), ('each index seen has its pairs', FP(x, z3.And(c.R(x, L.i) >= 0, z3.Select(dom, V.int(x)) == (c.R(x, L.i) > 0)), z3.Select(dom, V.int(x)))), ('only indexes', FP(v, z3.Implies(z3.Select(dom, v), z3.And(V.is_int(v), V.i(v) >= 0)), z3.Select(dom, v))), ('counted', FP(x, c.R(x, L.i) >= 0, c.R(x, L.i))),
            ('in a list of its own', FP(v, z3.Implies(z3.Select(dom, v), z3.And(V.is_obj(z3.Select(m, v)), V.r(z3.Select(m, v)) < r, V.r(z3.Select(m, v)) >= -st.alloc, C06.fld(E, st, 'owner', z3.Select(m, v)) == v)), z3.Select(m, v))),
            ('as many', FP(x, z3.Implies(z3.Select(dom, V.int(x)), n == c.R(x, L.i)), l)), ('in order', FP([x, k], z3.Implies(z3.And(z3.Select(dom, V.int(x)), 0 <= k, k < c.R(x, L.i)), z3.Select(a, k) == z3.Select(c.A(x), k)), z3.Select(a, k))),
            ('other lists are as before', FP(q, z3.Implies(q >= r, z3.And(z3.Select(h('llen'), q) == z3.Select(h0('llen'), q), z3.Select(h('lel'), q) == z3.Select(h0('lel'), q))), z3.Select(h('llen'), q), z3.Select(h('lel'), q)))]
def given(c, st, j, x):
    """member j got exactly the pairs of index x, once"""
    E = c.E; e = C06.member(c, st, j); f = lambda n: C06.fld(E, st, n, e); k = z3.Int('k!g'); a = z3.Select(E.comp(st, 'ga.flat'), V.r(e))
    return z3.And(f('flats') == V.int(1), f('sep') == c.sepv, f('count') == V.int(c.R(x, c.pn)), FP(k, z3.Implies(z3.And(0 <= k, k < c.R(x, c.pn)), z3.Select(a, k) == z3.Select(c.A(x), k)), z3.Select(a, k)))
def built(c, st, n, prune):
    E = c.E; j, k = z3.Int('j!n'), z3.Int('k!n'); e = C06.member(c, st, j); s, s2 = C06.at(E, st, c.r, j), C06.at(E, st, c.r, k)
    x = V.i(z3.Select(c.K(c.want), j)) if prune else j; has = z3.BoolVal(True) if prune else c.R(j, c.pn) > 0
    return [('that many members', z3.And(E.llen(st, c.r) == n, cnt(E, st, 'new') == n)), ('each new, made without a value', FP(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.r(e) < 0, col(E, st, 'new', 0, j) == e, col(E, st, 'new', 1, j) == NIL)), s)),
            ('each got the pairs of its index', FP(j, z3.Implies(z3.And(0 <= j, j < n, has), given(c, st, j, x)), s)), ('and no others', FP(j, z3.Implies(z3.And(0 <= j, j < n, z3.Not(has)), C06.fld(E, st, 'flats', e) == V.int(0)), s))]
def grown(L, prune):
    E, c, st = L.E, L.c, L.st; j, k = z3.Int('j!d'), z3.Int('k!d'); s, s2 = C06.at(E, st, c.r, j), C06.at(E, st, c.r, k); e = C06.member(c, st, j); n = L.i; q = z3.Int('q!gr'); h = lambda nm: E.comp(st, nm); h0 = lambda nm: E.comp(L.st0, nm)
    d = E.ref(L.var('indexes')); kept = z3.And([z3.Select(h(nm), d) == z3.Select(h0(nm), d) for nm in ('dom', 'map')])
    return [('at most the cap', z3.Or(n == 0, n <= c.cap)), ('the indexes are as before', kept), ('all different', FP([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), z3.And(s != s2, e != s2, s != C06.member(c, st, k), e != C06.member(c, st, k))), (s, s2))), framed(c, st, 'llen', c.r), ('other lists are as before', FP(q, z3.Implies(q != c.r, z3.And(z3.Select(h('llen'), q) == z3.Select(h0('llen'), q), z3.Select(h('lel'), q) == z3.Select(h0('lel'), q))), z3.Select(h('llen'), q), z3.Select(h('lel'), q)))] + built(c, st, n, prune) + wf_new(c, st)
def wf_new(c, st):
    import C25
    return C25.wf_new(c, st)
def inv_prune(L): return [('bound', L.i <= L.c.N(L.c.want))] + grown(L, True)
def inv_all(L): return [('bound', z3.Or(L.i == 0, L.i <= L.c.top + 1))] + grown(L, False)
def least(a, b): return z3.If(a < b, a, b)
def post(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; some = z3.Not(c.nothing); out = [('no member without a remaining index', z3.Implies(c.nothing, E.llen(st, c.r) == 0))]
    out += [('pruning: ' + n, z3.Implies(z3.And(some, c.prune), f)) for n, f in built(c, st, least(c.N(c.want), c.cap), True)]
    out += [('without pruning: ' + n, z3.Implies(z3.And(some, z3.Not(c.prune)), f)) for n, f in built(c, st, least(c.top + 1, c.cap), False)]
    return [(n, z3.Implies(z3.And(c.defs), f)) for n, f in out] + C06.wf(c, st)
def contracts(P):
    out = []
    def lp():
        return [LoopSpec('pairs', inv_pairs, match=lambda E, st, fr, node, src: node is not None and node._ == 'For' and names(node) == {'key', 'value'}), LoopSpec('members by index', inv_prune, match=lambda E, st, fr, node, src: node is not None and node._ == 'For' and fits(st, fr, True)), LoopSpec('members up to the highest', inv_all, match=lambda E, st, fr, node, src: node is not None and node._ == 'For')]
    def fits(st, fr, want): return True
    for how in ('named', 'unnamed'):
        def en(E, c): c.cls = LIST; env(E, c)
        specs = lp()
        specs[1].match = lambda E, st, fr, node, src: node is not None and node._ == 'For' and 'xrange' not in callee(node) and names(node) != {'key', 'value'}
        specs[2].match = lambda E, st, fr, node, src: node is not None and node._ == 'For' and 'xrange' in callee(node)
        out.append(Contract('List._set_flat(%s)' % how, C06.C_ + ':List._set_flat', setup(how), post, env=en, loops=specs))
    return out
def callee(node): f = getattr(node.iter, 'func', None); return (getattr(f, 'id', None) or getattr(f, 'attr', None) or '').replace('range', 'xrange')
def names(node): t = node.target; return {x.id for x in t.elts if x._ == 'Name'} if t._ == 'Tuple' else {t.id}
ASSUMPTIONS = ['re: a pattern of escaped text, \\d+ and an alternative with \\Z means what its documentation says; what \\d+ matches, int() converts to a number that is not negative', 're_uescape(x) matches exactly x', 'set_flat of a member does not touch the list or the pairs (contract of the member)', 'deleting [:] empties the list (C06)', 'every set of integers has one ascending list']
