"""C13: the declarative calls: each works on a fresh subclass, writes what was asked on it and nothing else, and never touches what it was given."""
from common import *
B_, C_, S_, U_ = 'flatland.schema.base', 'flatland.schema.containers', 'flatland.schema.scalars', 'flatland.util.base'
PROPS = 'flatland.schema.properties:Properties'
isty = lambda E, v: E.uf('is_a_type', V, B)(v)
def sq(c, st, name, pre=None):
    """arbitrary positional arguments"""
    E = c.E; n, a = c.sym('number_of_' + name, I), z3.Const('in_' + name, AV); j = z3.Int('j!' + name); v = z3.Select(a, j)
    c.assume(st, z3.And(n >= 0, FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(v != ABSENT, z3.Implies(V.is_obj(v), z3.And(V.r(v) > 0, V.r(v) != E.ref(c.me))))), v))); return n, a, SeqVal(n, a)
def clone(c, st): c.me = c.obj(st, 'clone'); trace(c, st, 'write', 3)
def env(E, c):
    def put(E, st, o, v, name):
        st = st.clone(); rec(E, st, 'write', o, V.str(z3.StringVal(name)), v); E.setf(st, E.ref(o), name, E.to_v(v)); yield st, None
    E.iface['*='] = put
    def isinst(E, st, args, kw):
        k = E.from_v(args[1])
        if isinstance(k, Tup) and all(isinstance(x, Cls) and x.short == 'type' for x in k.items): yield st, V.bool(isty(E, E.to_v(args[0]))); return
        yield st, E.mkbool(E.isinstance_(st, args[0], args[1]))
    E.ext['isinstance'] = isinst; E.iface['__name__'] = lambda E, st, o: iter([(st, V.str(E.uf('class_name', V, S)(E.to_v(o))))])
def wrote(c, st, name):
    """exactly one attribute is written, on the clone"""
    E = c.E; return [('one attribute is set, on the new class only: ' + name, z3.And(cnt(E, st, 'write') == 1, col(E, st, 'write', 0, 0) == c.me, col(E, st, 'write', 1, 0) == V.str(z3.StringVal(name))))]
def value(c, st): return col(c.E, st, 'write', 2, 0)
def same(c, st, r): return [('the new class is returned', c.E.to_v(r) == c.me)]
def nothing(c, st): return ('nothing is set', cnt(c.E, st, 'write') == 0)
def only(r, *names): return ('no other exception (not %s)' % r.cls, r.cls in names)
def someone(n, a, p):
    j = z3.Int('j!s'); return exw([j], z3.And(0 <= j, j < n, p(z3.Select(a, j))))
def hit(c, st, n, a, p):
    j = z3.Int('j!s'); return z3.Not(FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Not(p(z3.Select(a, j)))), z3.Select(a, j)))
def fresh_list(c, st, v, n, at):
    """v is a new list of n items, the k-th being at(k)"""
    E = c.E; r = V.r(v); j = z3.Int('j!l'); return [('a list of its own', z3.And(V.is_obj(v), r < 0)), ('its length', E.llen(st, r) == n), ('its items', FA(j, z3.Implies(z3.And(0 <= j, j < n), E.lget(st, r, j) == at(j)) if hasattr(E, 'lget') else z3.Implies(z3.And(0 <= j, j < n), z3.Select(E.larr(st, r), j) == at(j)), z3.Select(E.larr(st, r), j)))]
# ---- named
def setup_n(c, st): clone(c, st); c.x = c.sym('name'); c.assume(st, z3.And(c.x != ABSENT, z3.Implies(V.is_obj(c.x), V.r(c.x) > 0))); return [c.me, c.x]
def env_n(E, c):
    env(E, c); c.made = []
    def uni(E, st, args, kw):
        if len(args) != 1 or kw: raise Unsupported('unicode with arguments')
        yield st, V.str(E.uf('text_of', V, S)(E.to_v(args[0])))
    E.ext['unicode'] = uni
def post_n(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    k = z3.Or(V.is_str(c.x), c.x == NONE); return wrote(c, st, 'name') + same(c, st, r) + [('a text or None is kept', z3.Implies(k, value(c, st) == c.x)), ('anything else becomes its text', z3.Implies(z3.Not(k), value(c, st) == V.str(c.E.uf('text_of', V, S)(c.x))))]
# ---- validated_by
def setup_v(c, st): clone(c, st); c.n, c.a, s = sq(c, st, 'validators'); return [c.me], {}, None, s
def none_of(p):
    def inv(L): c = L.c; j = z3.Int('j!t'); return [('bound', L.i <= c.n), ('nothing is set yet', cnt(L.E, L.st, 'write') == 0), ('none so far', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.Not(p(c, z3.Select(c.a, j)))), z3.Select(c.a, j)))]
    return inv
def post_v(attr):
    def post(c, st, r):
        t = lambda v: isty(c.E, v); some = hit(c, st, c.n, c.a, t)
        if isexc(r): return [only(r, 'TypeError'), ('only when a validator is a type', some), nothing(c, st)]
        return wrote(c, st, attr) + same(c, st, r) + [('no validator is a type', z3.Not(some))] + fresh_list(c, st, value(c, st), c.n, lambda k: z3.Select(c.a, k)) + unchanged(c, st, 'llen', 'lel')
    return post
# ---- including_validators
def setup_i(attr, kind):
    def f(c, st):
        clone(c, st); E = c.E; c.n, c.a, s = sq(c, st, 'validators')
        if kind == 'list': c.base = c.list(st, 'base'); c.distinct(st, c.me, c.base); c.bn, c.ba = E.llen(st, E.ref(c.base)), E.larr(st, E.ref(c.base))
        else: c.bn, c.ba = c.sym('number_of_existing', I), z3.Const('in_existing', AV); c.assume(st, c.bn >= 0); c.base = E.to_v(SeqVal(c.bn, c.ba))
        E.setf(st, E.ref(c.me), attr, c.base); c.kw = c.dict(st, 'kw'); c.kr = r = E.ref(c.kw); c.assume(st, z3.And(r != E.ref(c.me), *([r != E.ref(c.base)] if kind == 'list' else []))); E.textkeyed.append(r); x = z3.Const('x!kw', V); c.assume(st, FA(x, z3.Implies(z3.Select(E.dom(st, r), x), V.is_str(x)), z3.Select(E.dom(st, r), x)))
        c.P = V.str(z3.StringVal('position')); v = z3.Select(E.dmap(st, r), c.P); c.d0 = E.dom(st, r); c.assume(st, z3.Implies(z3.Select(c.d0, c.P), V.is_int(v))); c.pos = z3.If(z3.Select(c.d0, c.P), V.i(v), z3.IntVal(-1))
        return [c.me], {}, c.kw, s
    return f
def env_i(attr):
    def f(E, c): env(E, c); fields(E, attr)
    return f
def post_i(attr):
    def post(c, st, r):
        E = c.E; x = z3.Const('x!ot', V); other = z3.Not(z3.ForAll([x], z3.Implies(z3.Select(c.d0, x), x == c.P), patterns=[z3.Select(c.d0, x)]))
        if isexc(r): return [only(r, 'TypeError'), ('only for an unknown keyword', other), nothing(c, st)]
        out = wrote(c, st, attr) + same(c, st, r); v = value(c, st); rr = V.r(v); j = z3.Int('j!i'); n, m = c.bn, c.n; p = z3.If(c.pos >= 0, z3.If(c.pos < n, c.pos, n), z3.If(c.pos >= -n - 1, n + 1 + c.pos, z3.IntVal(0)))
        p2 = z3.If(c.pos >= -n - 1, p, z3.If(2 * n + 1 + c.pos < 0, z3.IntVal(0), 2 * n + 1 + c.pos))     # further left than the list: where a Python slice puts it
        at = lambda k: z3.If(k < p2, z3.Select(c.ba, k), z3.If(k < p2 + m, z3.Select(c.a, k - p2), z3.Select(c.ba, k - m)))
        out += [('no keyword but position', z3.Not(other)), ('a list of its own', z3.And(V.is_obj(v), rr < 0)), ('the existing and the added', E.llen(st, rr) == n + m), ('the added ones at the position asked, the others around them in order', FA(j, z3.Implies(z3.And(0 <= j, j < n + m), z3.Select(E.larr(st, rr), j) == at(j)), z3.Select(E.larr(st, rr), j)))]
        return out + unchanged(c, st, 'llen', 'lel')
    return post
# ---- with_properties
def setup_p(c, st):
    clone(c, st); E = c.E; c.n, c.a, s = sq(c, st, 'pairs'); c.props = c.obj(st, 'properties', None); c.distinct(st, c.me, c.props); E.setf(st, E.ref(c.me), 'properties', c.props); c.kw = c.dict(st, 'kw'); c.assume(st, z3.And(c.kw != c.me, c.kw != c.props)); c.star = s; trace(c, st, 'update', 3); trace(c, st, 'merge', 3); return [c.me], {}, c.kw, s
def env_p(E, c):
    env(E, c); fields(E, 'properties')
    def call(E, st, f, args, kw, star, starpos):
        f = E.from_v(f)
        if not (isinstance(f, Cls) and f.short == 'dict' or isinstance(f, BI) and f.name.endswith('dict')) or args or kw or star is None: raise Unsupported('call with * and **')
        st = st.clone(); v = E.alloc(st, '__builtin__:dict'); rec(E, st, 'merge', v, starpos if starpos is not None else NIL, star); yield st, v
    E.ext['starcall'] = call
    def upd(E, st, o, args, kw): st = st.clone(); rec(E, st, 'update', o, args[0] if args else NIL, V.int(z3.IntVal(len(args) + len(kw)))); yield st, None
    E.icall['update'] = upd
def post_p(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; g = lambda t, k: col(E, st, t, k, 0)
    return same(c, st, r) + [nothing(c, st), ('the properties of the new class are updated, once', z3.And(cnt(E, st, 'update') == 1, g('update', 0) == c.props, g('update', 2) == V.int(1))), ('with the arguments, read as a mapping', z3.And(cnt(E, st, 'merge') == 1, g('update', 1) == g('merge', 0), g('merge', 1) == E.to_v(c.star), g('merge', 2) == c.kw))]
# ---- using
def setup_u(c, st):
    clone(c, st); E = c.E; c.kw = c.dict(st, 'overrides'); c.kr = r = E.ref(c.kw); c.distinct(st, c.me, c.kw); E.textkeyed.append(r); x = z3.Const('x!kw', V); d, m = E.dom(st, r), E.dmap(st, r); v = z3.Select(m, x)
    c.assume(st, FA(x, z3.Implies(z3.Select(d, x), z3.And(V.is_str(x), v != ABSENT, z3.Implies(V.is_obj(v), z3.And(V.r(v) > 0, V.r(v) != r, V.r(v) != E.ref(c.me))))), z3.Select(d, x), v))
    c.d, c.m = d, m; c.V, c.Pr = [V.str(z3.StringVal(n)) for n in ('validators', 'properties')]; trace(c, st, 'props', 2)
    c.vl = z3.Select(m, c.V); c.assume(st, z3.Implies(z3.Select(d, c.V), z3.And(V.is_obj(c.vl)))); E.setclass(st, c.vl, '__builtin__:list'); c.vn, c.va = E.llen(st, V.r(c.vl)), E.larr(st, V.r(c.vl)); c.pv = z3.Select(m, c.Pr)
    c.assume(st, z3.Implies(z3.Select(d, c.Pr), z3.And(V.is_obj(c.pv), c.pv != c.vl))); i = z3.Int('r!n'); c.assume(st, FP(i, z3.Implies(i < 0, z3.Not(called(E, V.obj(i)))), called(E, V.obj(i)))); return [c.me], {}, c.kw
has = lambda E, n: E.uf('class_has', V, B)(n)
def env_u(E, c):
    env(E, c)
    E.iface['hasattr'] = lambda E, st, o, n: iter([(st, V.bool(has(E, E.to_v(n))))]) if E.to_v(o).eq(c.me) else None
    def put(E, st, args): st = st.clone(); rec(E, st, 'write', *args); yield st, None
    E.iface['setattr'] = put
    def static(E, st, args, kw): yield st, static_of(E, E.to_v(args[0]))
    E.ext['staticmethod'] = E.ext['__builtin__.staticmethod'] = static
    def props(E, st, args, kw): st = st.clone(); v = E.alloc(st); rec(E, st, 'props', v, args[0] if args else NIL); yield st, v
    E.ext['new:' + PROPS] = props
def static_of(E, v): return E.uf('static', V, V)(v)
def called(E, v): return E.uf('callable', V, B)(v)
def statical(E, y): return z3.If(called(E, y), static_of(E, y), y)
def inv_u(L):
    c, E, st = L.c, L.E, L.st; j = z3.Int('j!u'); g = lambda k: col(E, st, 'write', k, j); n, ks, ix = E.last_dict_order; k = z3.Select(ks, j); y = z3.Select(E.dmap(st, c.kr), k)
    return [('bound', L.i <= n), ('as many', cnt(E, st, 'write') == L.i), ('keyword by keyword', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.And(g(0) == c.me, g(1) == k, g(2) == statical(E, y), has(E, k))), g(1), k))]
def post_u(c, st, r):
    E = c.E; x = z3.Const('x!u', V); j = z3.Int('j!p'); unknown = z3.Not(z3.ForAll([x], z3.Implies(z3.Select(c.d, x), has(E, x)), patterns=[z3.Select(c.d, x)]))
    if isexc(r): return [only(r, 'TypeError'), ('only for an attribute the class does not have', unknown), framed(c, st, 'llen'), framed(c, st, 'lel')]
    n, ks, ix = E.last_dict_order; w = cnt(E, st, 'write'); g = lambda k, j=j: col(E, st, 'write', k, j); on = z3.And(0 <= j, j < w)
    k, y = g(1), g(2); v = z3.Select(c.m, k); q = V.r(y); i = z3.Int('i!p'); ispr = E.uf('isinst_' + PROPS, I, B)(V.r(c.pv))
    out = same(c, st, r) + [('an unknown attribute is refused', z3.Not(unknown)), ('only on the new class', FA(j, z3.Implies(on, g(0) == c.me), g(1))), ('only what was asked', FA(j, z3.Implies(on, z3.Select(c.d, k)), k)),
        ('everything asked is set', FA(x, z3.Implies(z3.Select(c.d, x), exw([j], z3.And(on, g(1) == x), (z3.Select(ix, x),))), z3.Select(c.d, x))),
        ('once', FA([j, i], z3.Implies(z3.And(0 <= j, j < i, i < w), g(1) != g(1, i)), (g(1), g(1, i)))),
        ('the value given, a function as a static one', FA(j, z3.Implies(z3.And(on, k != c.V, k != c.Pr), y == statical(E, v)), k)),
        ('validators: a list of its own', FA(j, z3.Implies(z3.And(on, k == c.V), z3.And(V.is_obj(y), q < 0, E.llen(st, q) == c.vn)), k)),
        ('validators: the ones given', FA([j, i], z3.Implies(z3.And(on, k == c.V, 0 <= i, i < c.vn), z3.Select(E.larr(st, q), i) == z3.Select(c.va, i)), (k, z3.Select(E.larr(st, q), i)), (k, z3.Select(c.va, i)))),
        ('properties: kept when they are one', FA(j, z3.Implies(z3.And(on, k == c.Pr, ispr), z3.And(y == statical(E, c.pv))), k)),
        ('properties: else made from the mapping given', FA(j, z3.Implies(z3.And(on, k == c.Pr, z3.Not(ispr)), z3.And(cnt(E, st, 'props') == 1, y == col(E, st, 'props', 0, 0), col(E, st, 'props', 1, 0) == c.pv)), k))]
    return out + [framed(c, st, 'llen'), framed(c, st, 'lel')]
# ---- declaring fields and members
ELEM = B_ + ':Element'
isel = lambda c, v: c.E.uf('is_an_element', V, B)(v)
def env_f(E, c):
    env(E, c); frozen(E, 'name'); inner = E.ext['isinstance']
    def isinst(E, st, args, kw):
        k = E.from_v(args[1])
        if isinstance(k, Cls) and k.q == ELEM: yield st, V.bool(isel(c, E.to_v(args[0]))); return
        for x in inner(E, st, args, kw): yield x
    E.ext['isinstance'] = isinst
    def uniq(E, st, args, kw):
        if len(args) != 1: raise Unsupported('set')
        for s, l in E.collect(st, args[0], None):
            if isinstance(l, Exc): yield s, l; continue
            s = s.clone(); r = E.ref(l); n, a = E.llen(s, r), E.larr(s, r); v = E.alloc(s, '__builtin__:set'); d = E.fresh(DOM, 'names'); x = z3.Const('x!s', V); i, j = z3.Ints('i!s j!s'); at = E.fresh(z3.ArraySort(V, I), 'at'); p, q = E.fresh(I, 'p'), E.fresh(I, 'q')
            s.pc = s.pc + (FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(d, z3.Select(a, j))), z3.Select(a, j)), FA(x, z3.Implies(z3.Select(d, x), z3.And(0 <= z3.Select(at, x), z3.Select(at, x) < n, z3.Select(a, z3.Select(at, x)) == x)), z3.Select(d, x), z3.Select(at, x)))
            m = E.card(s, d); s.pc = s.pc + (m <= n, z3.Implies(m == n, FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(a, i) != z3.Select(a, j)), (z3.Select(a, i), z3.Select(a, j)))), z3.Implies(m != n, z3.And(0 <= p, p < q, q < n, z3.Select(a, p) == z3.Select(a, q))))
            c.pq = (p, q); E.dset(s, E.ref(v), d, E.EMPTYMAP); E.assumed.add('a set made from n items has n members exactly when they are different'); yield s, v
    E.ext['set'] = uniq
    E.ext['str.join'] = lambda E, st, *a: iter([(st, V.str(E.fresh(S, 'joined')))])
def setup_f(c, st): clone(c, st); c.n, c.a, c.star = sq(c, st, 'fields'); c.pq = None; j = z3.Int('j!cl'); v = z3.Select(c.a, j); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), V.is_obj(v)), v)); c.name = c.E.uf('attr_name', I, V); return [c.me], {}, None, c.star
def name_at(c, j): return c.name(V.r(z3.Select(c.a, j)))
def post_f(c, st, r):
    E = c.E; some = hit(c, st, c.n, c.a, lambda v: isel(c, v)); i, j = z3.Ints('i!d j!d'); diff = FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c.n), name_at(c, i) != name_at(c, j)), (z3.Select(c.a, i), z3.Select(c.a, j)))
    if isexc(r): return [only(r, 'TypeError'), ('only when a field is an element, or a name comes twice', z3.Or(some, z3.Not(diff))), nothing(c, st)]
    return wrote(c, st, 'field_schema') + same(c, st, r) + [('no field is an element', z3.Not(some)), ('no name comes twice', diff), ('the fields given, in order', value(c, st) == E.to_v(c.star))] + unchanged(c, st, 'llen', 'lel')
def env_o(E, c):
    env_f(E, c)
    def of(E, st, b, f):
        st = st.clone(); s = E.from_v(b['fields']); s = s.items if isinstance(s, Tup) else s; v = E.fresh(V, 'made'); rec(E, st, 'dict', v, b['fields'], E.to_v(b['cls'])); st.pc = st.pc + (V.is_obj(v),); yield st, v
    E.contracts[C_ + ':Dict.of'] = of
def setup_o(c, st): a = setup_f(c, st); trace(c, st, 'dict', 3); return a
def post_o(c, st, r):
    E = c.E; some = hit(c, st, c.n, c.a, lambda v: isel(c, v)); nd = cnt(E, st, 'dict')
    if isexc(r): return [only(r, 'TypeError'), ('only when a member is an element, or there are none', z3.Or(some, c.n == 0)), nothing(c, st)]
    return wrote(c, st, 'member_schema') + same(c, st, r) + [('no member is an element', z3.Not(some)), ('there is one', c.n > 0), ('a single schema is the member schema', z3.Implies(c.n == 1, z3.And(nd == 0, value(c, st) == z3.Select(c.a, 0)))),
        ('several are held by a Dict of them', z3.Implies(c.n > 1, z3.And(nd == 1, value(c, st) == col(E, st, 'dict', 0, 0), col(E, st, 'dict', 1, 0) == E.to_v(c.star), col(E, st, 'dict', 2, 0) == E.to_v(Cls(C_ + ':Dict')))))] + unchanged(c, st, 'llen', 'lel')
# ---- valued
def setup_e(c, st): clone(c, st); c.n, c.a, c.star = sq(c, st, 'values'); return [c.me], {}, None, c.star
def post_e(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    return wrote(c, st, 'valid_values') + same(c, st, r) + [('the values given, in order', value(c, st) == c.E.to_v(c.star))]
# ---- the descriptor behind them
def env_g(E, c):
    def typ(E, st, args, kw):
        if len(args) != 3 or kw: raise Unsupported('type()')
        st = st.clone(); v = E.alloc(st); rec(E, st, 'type', v, *args); yield st, v
    E.ext['type'] = typ
    def bound(E, st, o, args, kw):
        if kw or len(args) != 2: raise Unsupported('__get__')
        st = st.clone(); v = E.alloc(st); rec(E, st, 'bind', v, o, args[0], args[1]); yield st, v
    E.icall['__get__'] = bound; frozen(E, '__name__', '__doc__', '__module__')
    E.iface['f_globals'] = lambda E, st, o: iter([(st, c.globs)])
    E.extcall = lambda E, st, f, args, kw: iter([(st, c.frame)])          # sys._getframe
    E.iface['__dict__'] = lambda E, st, o: iter([(st, c.idict)])
def setup_g(inst):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'descriptor', U_ + ':class_cloner'); c.cls = c.obj(st, 'cls'); c.inst = c.obj(st, 'instance') if inst else None; c.cl = c.obj(st, 'classmethod'); c.globs, c.idict = c.dict(st, 'globals'), c.dict(st, 'instance_dict'); c.frame = c.obj(st, 'frame')
        c.distinct(st, *[x for x in (c.me, c.cls, c.inst, c.cl, c.globs, c.idict, c.frame) if x is not None]); c.nm = c.sym('name', S); E.setf(st, E.ref(c.me), 'name', V.str(c.nm)); E.setf(st, E.ref(c.me), 'cloner', c.cl); trace(c, st, 'type', 4); trace(c, st, 'bind', 4); return [c.me, c.inst, c.cls]
    return f
def post_g(inst):
    def post(c, st, r):
        E = c.E
        if inst:
            k = V.str(c.nm); d = E.ref(c.idict); has_ = z3.Select(E.dom(c.st0, d), k); quiet = ('no class is made', z3.And(cnt(E, st, 'type') == 0, cnt(E, st, 'bind') == 0))
            if isexc(r): return [('AttributeError, when the instance does not hold one (not %s)' % r.cls, z3.And(z3.BoolVal(r.cls == 'AttributeError'), z3.Not(has_))), quiet]
            return [('what the instance holds', z3.And(has_, E.to_v(r) == z3.Select(E.dmap(c.st0, d), k))), quiet]
        if isexc(r): return [('no exception (not %s)' % r.cls, False)]
        g = lambda t, k: col(E, st, t, k, 0); clone = g('type', 0); bases = E.from_v(g('type', 2))
        return [('one class is made, a new one', z3.And(cnt(E, st, 'type') == 1, V.r(clone) < 0)), ('with the name of the class', g('type', 1) == E.uf('attr___name__', I, V)(E.ref(c.cls))), ('a direct subclass of it alone', g('type', 2) == V.cons(c.cls, NIL)),
            ('what it defines itself is documentation and module', members_only(c, st, g('type', 3))),
            ('the method works on that new class', z3.And(cnt(E, st, 'bind') == 1, E.to_v(r) == g('bind', 0), g('bind', 1) == c.cl, z3.If(g('bind', 2) == NONE, g('bind', 3) == clone, z3.BoolVal(False))))]
    return post
def members_only(c, st, m):
    E = c.E; x = z3.Const('x!m', V); D = [V.str(z3.StringVal(n)) for n in ('__doc__', '__module__')]; return FA(x, z3.Implies(z3.Select(E.dom(st, V.r(m)), x), z3.Or([x == d for d in D])), z3.Select(E.dom(st, V.r(m)), x))
# ---- creating an element with overrides: they go to the element
def env_el(E, c):
    env_u(E, c); E.iface.pop('*='); inner = E.ext['isinstance']
    def st_(E, st, o, args, kw): st = st.clone(); rec(E, st, 'set', o, args[0] if args else NIL, V.int(z3.IntVal(len(args) + len(kw)))); yield st, True
    E.icall['set'] = st_; E.contracts[B_ + ':Element.set'] = lambda E, st, b, f: st_(E, st, b['self'], [b[k] for k in b if k != 'self'], {})
def setup_el(c, st):
    E = c.E; setup_u(c, st); E.setclass(st, c.me, ELEM); c.x = c.sym('value'); c.assume(st, z3.And(c.x != ABSENT, z3.Implies(V.is_obj(c.x), V.r(c.x) > 0))); trace(c, st, 'set', 3); c.par = V.str(z3.StringVal('parent')); c.assume(st, c.Pr != c.par); return [c.me, c.x], {}, c.kw
def inv_el(L):
    c, E, st = L.c, L.E, L.st; j = z3.Int('j!u'); g = lambda k: col(E, st, 'write', k, j); n, ks, ix = E.last_dict_order; k = z3.Select(ks, j); y = z3.Select(E.dmap(st, c.kr), k)
    return [('bound', L.i <= n), ('as many', cnt(E, st, 'write') == L.i), ('the value is not set yet', cnt(E, st, 'set') == 0), ('keyword by keyword', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.And(g(0) == c.me, g(1) == k, g(2) == y, has(E, k))), g(1), k))]
def post_el(c, st, r):
    E = c.E; x = z3.Const('x!u', V); j = z3.Int('j!p'); unknown = z3.Not(z3.ForAll([x], z3.Implies(z3.And(z3.Select(c.d, x), x != c.par), has(E, x)), patterns=[z3.Select(c.d, x)])); un = E.to_v(E.lookup_global(c.st0, B_, 'Unspecified'))
    fr = [framed(c, st, 'llen'), framed(c, st, 'lel')] + [framed(c, st, 'f.' + n, E.ref(c.me)) for n in ('parent', 'valid', 'errors', 'warnings')]
    if isexc(r): return [only(r, 'TypeError'), ('only for an attribute the element does not have', unknown), ('and no value is set', cnt(E, st, 'set') == 0)] + fr
    n, ks, ix = E.last_dict_order; w = cnt(E, st, 'write'); g = lambda k, j=j: col(E, st, 'write', k, j); on = z3.And(0 <= j, j < w); k, y = g(1), g(2); q = V.r(y); i = z3.Int('i!p'); s = cnt(E, st, 'set'); me = E.ref(c.me)
    new = lambda f: z3.And(V.is_obj(E.getf(st, me, f)), V.r(E.getf(st, me, f)) < 0, E.llen(st, V.r(E.getf(st, me, f))) == 0)
    return fr + [('an unknown attribute is refused', z3.Not(unknown)), ('only on the element', FA(j, z3.Implies(on, z3.And(g(0) == c.me, z3.Select(c.d, k), k != c.par)), g(1))), ('everything asked is set', FA(x, z3.Implies(z3.And(z3.Select(c.d, x), x != c.par), exw([j], z3.And(on, g(1) == x), (z3.Select(ix, x),))), z3.Select(c.d, x))),
        ('the value given', FA(j, z3.Implies(z3.And(on, k != c.V), y == z3.Select(c.m, k)), k)),
        ('validators: a list of its own', FA(j, z3.Implies(z3.And(on, k == c.V), z3.And(V.is_obj(y), q < 0, E.llen(st, q) == c.vn)), k)),
        ('validators: the ones given', FA([j, i], z3.Implies(z3.And(on, k == c.V, 0 <= i, i < c.vn), z3.Select(E.larr(st, q), i) == z3.Select(c.va, i)), (k, z3.Select(E.larr(st, q), i)), (k, z3.Select(c.va, i)))),
        ('the parent given, or none', E.getf(st, me, 'parent') == z3.If(z3.Select(c.d, c.par), z3.Select(c.m, c.par), NONE)), ('no messages: lists of its own', z3.And(new('errors'), new('warnings'), E.getf(st, me, 'errors') != E.getf(st, me, 'warnings'))),
        ('a value given is set, once', z3.Implies(c.x != un, z3.And(s == 1, col(E, st, 'set', 0, 0) == c.me, col(E, st, 'set', 1, 0) == c.x, col(E, st, 'set', 2, 0) == V.int(1)))), ('none is not', z3.Implies(c.x == un, s == 0))]
def contracts(P):
    BE = B_ + ':Element'; CO = C_ + ':Container'
    out = [Contract('Element.named', BE + '.named/raw', setup_n, post_n, env=env_n)]
    for q, attr in ((BE + '.validated_by', 'validators'), (CO + '.descent_validated_by', 'descent_validators')):
        out.append(Contract(q.split(':')[1], q + '/raw', setup_v, post_v(attr), env=env, loops=[LoopSpec('validators', none_of(lambda c, v: isty(c.E, v)))]))
    for q, attr in ((BE + '.including_validators', 'validators'), (CO + '.including_descent_validators', 'descent_validators')):
        for kind in ('list', 'tuple'): out.append(Contract('%s (to a %s)' % (q.split(':')[1], kind), q + '/raw', setup_i(attr, kind), post_i(attr), env=env_i(attr)))
    out.append(Contract('Element.using', BE + '.using/raw', setup_u, post_u, env=env_u, loops=[LoopSpec('overrides', inv_u)]))
    out.append(Contract('Element.with_properties', BE + '.with_properties/raw', setup_p, post_p, env=env_p))
    out.append(Contract('Dict.of', C_ + ':Dict.of/raw', setup_f, post_f, env=env_f, loops=[LoopSpec('fields', none_of(isel), match=lambda E, st, fr, node, src: node is not None and node._ == 'For'), LoopSpec('duplicates', lambda L: [('nothing is set yet', cnt(L.E, L.st, 'write') == 0)], match=lambda E, st, fr, node, src: not isinstance(src, SeqVal))]))
    out.append(Contract('Sequence.of', C_ + ':Sequence.of/raw', setup_o, post_o, env=env_o, loops=[LoopSpec('members', none_of(isel))]))
    out.append(Contract('Element.__init__', B_ + ':Element.__init__', setup_el, post_el, env=env_el, loops=[LoopSpec('overrides', inv_el)]))
    out.append(Contract('Enum.valued', S_ + ':Enum.valued/raw', setup_e, post_e, env=env))
    for inst in (False, True): out.append(Contract('class_cloner.__get__ (%s)' % ('instance' if inst else 'class'), U_ + ':class_cloner.__get__', setup_g(inst), post_g(inst), env=env_g))
    return out
ASSUMPTIONS = ['the contract of Properties (C12): writes on a class go to that class', 'type(name, bases, members) makes a new class and classmethod.__get__ binds to the class it is given (Python)', 'hasattr and setattr with a dynamic name have their Python meaning', 'no list, tuple or Properties made by these calls is callable']
