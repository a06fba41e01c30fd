"""C08: a mapping holds, for each of its keys, an element of the schema field of that name whose parent is the mapping."""
from common import *
C_ = 'flatland.schema.containers'
U_ = 'flatland.util.base'
FULL, SPARSE = C_ + ':Dict', C_ + ':SparseDict'
def world(c, st):
    """me: a mapping over a list of field schemas with distinct names; fs(x): the position of the field called x (their number: none)"""
    E = c.E; c.me = c.obj(st, 'mapping', c.cls); c.r = E.ref(c.me); c.fields = c.list(st, 'field_schema'); c.n, c.a = E.llen(st, E.ref(c.fields)), E.larr(st, E.ref(c.fields)); c.distinct(st, c.me, c.fields)
    E.setf(st, c.r, 'field_schema', c.fields); c.nm = c.sym('own_name'); c.assume(st, z3.And(c.nm != ABSENT, z3.Or(c.nm == NONE, V.is_str(c.nm)))); E.setf(st, c.r, 'name', c.nm)
    j = z3.Int('j!'); x = z3.Const('x!', V); c.S = lambda j: z3.Select(c.a, j); c.name = lambda v: E.uf('attr_name', I, V)(V.r(v)); c.opt = lambda v: E.uf('attr_optional', I, V)(V.r(v)); c.fs = E.uf('field_called', V, I); c.inst = E.uf('is_element_of', V, V, B)
    y = z3.Const('y!', V)
    c.assume(st, z3.And(FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(c.S(j)), V.r(c.S(j)) > 0, V.r(c.S(j)) != c.r, V.is_str(c.name(c.S(j))), V.is_bool(c.opt(c.S(j))), c.fs(c.name(c.S(j))) == j)), c.S(j)),
        FA(x, z3.And(0 <= c.fs(x), c.fs(x) <= c.n, z3.Implies(c.fs(x) < c.n, c.name(c.S(c.fs(x))) == x)), c.fs(x)), FA([x, y], z3.Implies(c.inst(x, y), z3.And(V.is_obj(x), x != c.me, c.opt(x) == c.opt(y))), c.inst(x, y))))
    c.d, c.m = E.dom(st, c.r), E.dmap(st, c.r); c.min = c.sym('minimum_fields'); E.setf(st, c.r, 'minimum_fields', c.min); c.assume(st, z3.Or(c.min == NONE, c.min == sv('required')))
    c.p0 = E.comp(st, 'f.parent'); trace(c, st, 'set', 2); trace(c, st, 'new', 2); trace(c, st, 'put', 2)
    c.key, c.value = c.sym('key'), c.sym('value'); c.assume(st, z3.And(c.key != ABSENT, c.value != ABSENT, z3.Not(V.is_obj(c.key)), c.value != c.me)); c.known = c.fs(c.key) < c.n
def closed(c, st, upto=None, need=True, tag=''):
    """every key is a field's name, its child an element of that field with the mapping as parent; which keys must be there"""
    E = c.E; x = z3.Const('x!c' + tag, V); d, m = E.dom(st, c.r), E.dmap(st, c.r); has = z3.Select(d, x); e = z3.Select(m, x); f = c.S(c.fs(x)); par = z3.Select(E.comp(st, 'f.parent'), V.r(e))
    must = c.fs(x) < c.n
    if c.cls == SPARSE: must = z3.And(must, c.min == sv('required'), c.opt(f) == V.bool(False)) if need else z3.BoolVal(False)
    return [('each child is an element of the field of its key, with the mapping as parent, and no other key is held', FA(x, z3.Implies(has, z3.And(c.fs(x) < c.n, c.inst(e, f), par == c.me)), has, e)),
            ('the keys that must be there are', FA(x, z3.Implies(must, has), has, c.fs(x)))]
def env(E, c):
    frozen(E, 'name', 'optional')
    def setat(E, st, o, n, v):
        if n != 'parent': raise Unsupported('assignment to .%s' % n)
        st = st.clone(); E.setf(st, E.ref(o), 'parent', E.to_v(v)); yield st, None
    E.iface['setattr'] = setat
    def inst(E, st, args, kw):
        t = E.from_v(args[1])
        if t is None: yield st, Exc('TypeError')
        elif isinstance(t, z3.ExprRef): yield st, V.bool(c.inst(E.to_v(args[0]), t))
        else: yield st, E.mkbool(E.isinstance_(st, args[0], t))
    E.ext['isinstance'] = inst
    def fresh(E, st, f, args, kw):           # calling a field schema: a fresh element of it, unless its value is refused
        f = E.to_v(f)
        if args: yield st.clone(), Exc('ValueRefused')
        st = st.clone(); v = E.alloc(st); st.pc = st.pc + (c.inst(v, f),); E.setf(st, E.ref(v), 'parent', E.to_v(kw.get('parent', None))); rec(E, st, 'new', v, args[0] if args else NIL); yield st, v
    E.extcall = fresh
    def fromd(E, st, o, args, kw): return fresh(E, st, o, args, kw)
    E.icall['from_defaults'] = fromd
    def setter(E, st, o, args, kw):          # a field takes a value: it is still the same element
        yield st.clone(), Exc('ValueRefused')
        st = st.clone(); n = cnt(E, st, 'set'); rec(E, st, 'set', o, args[0]); yield st, V.bool(E.uf('accepts', I, B)(n))
    E.icall['set'] = setter
    E.contracts[C_ + ':Mapping._field_schema_for'] = field_for
    E.contracts[C_ + ':SparseDict.may_contain'] = lambda E, st, b, f: iter([(st, V.bool(z3.Or(E.dhas(st, c.r, E.to_v(b['key'])), c.fs(E.to_v(b['key'])) < c.n)))])
    E.contracts[C_ + ':Mapping.may_contain'] = lambda E, st, b, f: iter([(st, V.bool(E.dhas(st, c.r, E.to_v(b['key']))))])
    E.contracts[C_ + ':SparseDict._reset'] = E.contracts[C_ + ':Mapping._reset'] = reset
def field_for(E, st, b, f):
    c = E.ghost; k = E.to_v(b['key'])
    for s, t in E.split(st, c.fs(k) < c.n): yield s, (c.S(c.fs(k)) if t else None)
def reset(E, st, b, f):                      # contract of _reset, below
    c = E.ghost; st = st.clone(); rec(E, st, 'put', sv('reset'), NONE); d, m = E.fresh(DOM, 'reset_dom'), E.fresh(MAP, 'reset_map'); E.dset(st, c.r, d, m); x = z3.Const('x!rs', V)
    p0 = E.comp(st, 'f.parent'); p1 = E.fresh(p0.sort(), 'reset_parents'); st.heap['f.parent'] = p1; r = z3.Int('r!rs'); old = z3.simplify(st.alloc); na = E.fresh(I, 'alloc'); st.pc = st.pc + (na >= old,); st.alloc = na
    st.pc = st.pc + tuple(f for _, f in closed(c, st, tag='r')) + (FA(x, z3.Implies(z3.Select(d, x), z3.And(V.r(z3.Select(m, x)) < -old, V.r(z3.Select(m, x)) >= -na)), z3.Select(d, x)), FA(r, z3.Implies(r >= -old, z3.Select(p1, r) == z3.Select(p0, r)), z3.Select(p1, r)))
    if c.cls == SPARSE: st.pc = st.pc + (FA(x, z3.Select(d, x) == z3.And(c.fs(x) < c.n, c.min == sv('required'), c.opt(c.S(c.fs(x))) == V.bool(False)), z3.Select(d, x)),)
    yield st, None
def start(*more, **kw):
    def f(c, st):
        world(c, st)
        for _, p in closed(c, st, tag='0'): c.assume(st, p)
        x = z3.Const('x!old', V); c.assume(st, FA(x, V.r(z3.Select(c.m, x)) > 0, z3.Select(c.m, x))); c.E.assumed.add('children stored before the call exist before it')
        m = {'key': c.key, 'value': c.value}; return [c.me] + [m[k] for k in more]
    return f
def same(c, st):
    """nothing about the mapping changed"""
    x = z3.Const('x!s', V); return [('the keys and children are as before', z3.And(c.E.dom(st, c.r) == c.d, c.E.dmap(st, c.r) == c.m)), framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r)] + closed(c, st)
def nochange(c, st): return same(c, st) + unchanged(c, st, 'f.parent') + [('no field is set, none created', z3.And(cnt(c.E, st, 'set') == 0, cnt(c.E, st, 'new') == 0))]
def only(c, st, x0, has, val=None):
    """the entry for one key is now this; the others are as before"""
    E = c.E; x = z3.Const('x!o', V); d, m = E.dom(st, c.r), E.dmap(st, c.r)
    return [('that key', z3.And(z3.Select(d, x0) == z3.BoolVal(has), z3.Select(m, x0) == val) if val is not None else z3.Select(d, x0) == z3.BoolVal(has)), ('the other keys and children are as before', FA(x, z3.Implies(x != x0, z3.And(z3.Select(d, x) == z3.Select(c.d, x), z3.Implies(z3.Select(d, x), z3.Select(m, x) == z3.Select(c.m, x)))), z3.Select(d, x), z3.Select(m, x))), framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r)] + closed(c, st)
def has(c): return z3.Select(c.d, c.key)
def child(c): return z3.Select(c.m, c.key)
def exc(c, st, res, *allowed):
    """raised only as allowed, and nothing changed"""
    return [('raises only %s (not %s)' % (', '.join(n for n, _ in allowed), res.cls), z3.Or([z3.And(z3.BoolVal(res.cls == n), g) for n, g in allowed]))] + nochange(c, st)
def was_set(c, st): E = c.E; return [('the child was set to the value, once', z3.And(cnt(E, st, 'set') == 1, col(E, st, 'set', 0, 0) == child(c), col(E, st, 'set', 1, 0) == c.value))]
# ---- full mappings
def post_set(c, st, res):
    if isexc(res): return exc(c, st, res, ('TypeError', z3.Not(has(c))), ('ValueRefused', has(c)))
    return [('only for a key it has', has(c))] + same(c, st) + was_set(c, st)
def refuse(*kinds):
    def post(c, st, res):
        if not isexc(res): return [('never succeeds', z3.BoolVal(False))]
        return exc(c, st, res, *[(k, (g(c) if g else z3.BoolVal(True))) for k, g in kinds])
    return post
absent = lambda c: z3.Not(has(c))
def post_get(c, st, res):
    if isexc(res): return exc(c, st, res, ('KeyError', absent(c)))
    return [('the child', z3.And(has(c), c.E.to_v(res) == child(c)))] + nochange(c, st)
def post_may(c, st, res):
    if isexc(res): return exc(c, st, res)
    return [('whether the schema allows the key', T(c.E, st, res) == c.known)] + nochange(c, st)
# ---- sparse mappings
def isit(c): return c.inst(c.value, c.S(c.fs(c.key)))
def post_sput(c, st, res):
    E = c.E
    if isexc(res): return exc(c, st, res, ('TypeError', z3.Not(c.known)), ('ValueRefused', z3.And(c.known, z3.Not(isit(c)))))
    e = z3.Select(E.dmap(st, c.r), c.key); new = z3.And(z3.Not(isit(c)), absent(c)); fresh = z3.And(cnt(E, st, 'new') == 1, col(E, st, 'new', 0, 0) == e, col(E, st, 'new', 1, 0) == c.value, cnt(E, st, 'set') == 0)
    old = z3.And(cnt(E, st, 'new') == 0, e == child(c), cnt(E, st, 'set') == 1, col(E, st, 'set', 0, 0) == e, col(E, st, 'set', 1, 0) == c.value)
    return [('only a field of the schema', c.known), ('an element of the field becomes the child itself', z3.Implies(isit(c), z3.And(e == c.value, cnt(E, st, 'new') == 0, cnt(E, st, 'set') == 0))), ('a missing field is created with the value', z3.Implies(new, fresh)), ('a field that is there is set', z3.Implies(z3.And(z3.Not(isit(c)), has(c)), old))] + only(c, st, c.key, True)
def needed(c): return z3.And(c.min == sv('required'), c.opt(c.S(c.fs(c.key))) == V.bool(False))
def post_sdel(c, st, res):
    if isexc(res): return exc(c, st, res, ('TypeError', z3.Or(z3.Not(c.known), needed(c))), ('KeyError', z3.And(absent(c), c.known)))
    return [('only a key that is there and not required', z3.And(has(c), z3.Not(needed(c))))] + only(c, st, c.key, False)
def post_spop(c, st, res):
    if isexc(res): return exc(c, st, res, ('TypeError', z3.And(has(c), needed(c))), ('KeyError', absent(c)))
    return [('only a key that is there and not required', z3.And(has(c), z3.Not(needed(c)))), ('the removed child', c.E.to_v(res) == child(c))] + only(c, st, c.key, False)
def post_setdefault(c, st, res):
    E = c.E
    if isexc(res): return [('raises only for unknown keys, or when the field refuses the default', z3.Or(z3.And(z3.BoolVal(res.cls == 'TypeError'), z3.Not(c.known)), z3.And(z3.BoolVal(res.cls == 'ValueRefused'), c.known)))] + closed(c, st) + [(n, z3.Implies(z3.Not(c.known), f)) for n, f in nochange(c, st)]
    e = z3.Select(E.dmap(st, c.r), c.key); keep = z3.And(has(c), E.uf('attr_is_empty', I, V)(V.r(child(c))) == V.bool(False))
    return [('only a field of the schema', c.known), ('a filled field keeps its value, which is returned', z3.Implies(keep, z3.And(E.to_v(res) == E.uf('attr_value', I, V)(V.r(child(c))), cnt(E, st, 'set') == 0))), ('otherwise the default is set and returned', z3.Implies(z3.Not(keep), z3.And(E.to_v(res) == c.value, cnt(E, st, 'set') == 1, col(E, st, 'set', 0, 0) == e, col(E, st, 'set', 1, 0) == c.value))), ('a field that was there is still the child', z3.Implies(has(c), e == child(c)))] + only(c, st, c.key, True)
def env_sd(E, c):
    env(E, c); frozen(E, 'is_empty', 'value'); E.contracts[C_ + ':Mapping.field_schema_mapping'] = lambda E, st, b, f: iter([(st, c.fm)])
    E.iface[SPARSE + '.field_schema_mapping'] = lambda E, st, o: iter([(st, c.fm)]); E.contracts[C_ + ':SparseDict.__setitem__'] = sput
def setup_sd(c, st):
    a = start('key', 'value')(c, st); E = c.E; c.fm = c.dict(st, 'field_schema_mapping'); r = E.ref(c.fm); c.distinct(st, c.me, c.fields, c.fm); d, m = E.dom(st, r), E.dmap(st, r); x = z3.Const('x!fm', V); y = z3.Const('y!fm', I)
    c.assume(st, FA(x, z3.And(z3.Select(d, x) == (c.fs(x) < c.n), z3.Implies(c.fs(x) < c.n, z3.Select(m, x) == c.S(c.fs(x)))), z3.Select(d, x), z3.Select(m, x)))       # contract of field_schema_mapping (C09)
    em = E.uf('attr_is_empty', I, V); c.assume(st, FA(y, V.is_bool(em(y)), em(y))); return a
def sput(E, st, b, f):
    """contract of SparseDict.__setitem__ (above), for the values this code gives it"""
    c = E.ghost; k, v = E.to_v(b['key']), E.to_v(b['value']); h = E.dhas(st, c.r, k)
    for s, kn in E.split(st, c.fs(k) < c.n):
        if not kn: yield s, Exc('TypeError'); continue
        for s2, i in E.split(s, c.inst(v, c.S(c.fs(k)))):
            s2 = s2.clone()
            if i: E.setf(s2, E.ref(v), 'parent', c.me); E.dput(s2, c.r, k, v); rec(E, s2, 'put', k, v); yield s2, None; continue
            yield s2.clone(), Exc('ValueRefused')
            rec(E, s2, 'put', k, v)
            for s3, t in E.split(s2, h):
                s3 = s3.clone()
                if not t: e = E.alloc(s3); s3.pc = s3.pc + (c.inst(e, c.S(c.fs(k))),); E.setf(s3, E.ref(e), 'parent', c.me); E.dput(s3, c.r, k, e)
                yield s3, None
# ---- _reset and construction
def setup_reset(c, st):
    world(c, st); E = c.E; x = z3.Const('x!f0', V)
    # as at construction (empty) or as after any operation
    c.assume(st, FA(x, z3.Implies(z3.Select(c.d, x), c.fs(x) < c.n), z3.Select(c.d, x))); return [c.me]
def takes(c, j): return z3.Or(z3.BoolVal(c.cls != SPARSE), z3.And(c.min == sv('required'), c.opt(c.S(j)) == V.bool(False)))
def inv_reset(L):
    E, c, st = L.E, L.c, L.st; x = z3.Const('x!i', V); d, m = E.dom(st, c.r), E.dmap(st, c.r); done = z3.And(c.fs(x) < L.i, takes(c, c.fs(x))); e = z3.Select(m, x)
    return [('bound', L.i <= c.n), ('the fields so far are blank elements of theirs', FA(x, z3.Implies(done, z3.And(z3.Select(d, x), c.inst(e, c.S(c.fs(x))), z3.Select(E.comp(st, 'f.parent'), V.r(e)) == c.me, V.r(e) < 0)), z3.Select(d, x), e, c.fs(x))), ('no other key', FA(x, z3.Implies(z3.Select(d, x), (done if c.cls == SPARSE else c.fs(x) < c.n)), z3.Select(d, x))), framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r), framed(c, st, 'f.parent'), ('none is given a value', FA(z3.Int('k!i'), z3.Implies(z3.And(0 <= z3.Int('k!i'), z3.Int('k!i') < cnt(E, st, 'new')), col(E, st, 'new', 1, z3.Int('k!i')) == NIL), col(E, st, 'new', 1, z3.Int('k!i')))), ('traces', z3.And(cnt(E, st, 'new') >= 0, cnt(E, st, 'set') == 0))]
def post_reset(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; x = z3.Const('x!p', V); d, m = E.dom(st, c.r), E.dmap(st, c.r)
    return closed(c, st) + [('exactly these keys, each with a new child', FA(x, z3.And(z3.Select(d, x) == z3.And(c.fs(x) < c.n, takes(c, c.fs(x))), z3.Implies(z3.Select(d, x), V.r(z3.Select(m, x)) < 0)), z3.Select(d, x))), framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r), framed(c, st, 'f.parent')]
def inv_ff(L): c = L.c; return [('bound', L.i <= c.n), ('no field so far has that name', c.fs(c.key) >= L.i)]
def post_ff(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return [('the field of that name, or nothing', c.E.to_v(res) == z3.If(c.known, c.S(c.fs(c.key)), NONE))] + nochange(c, st)
def post_clear(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    x = z3.Const('x!cl', V); return closed(c, st) + [('only required fields are left', FA(x, z3.Select(c.E.dom(st, c.r), x) == z3.And(c.fs(x) < c.n, takes(c, c.fs(x))), z3.Select(c.E.dom(st, c.r), x))), framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r)]
def inv_empty(L): return [('the first key decides', z3.And(L.i == 0, L.i <= L.E.last_dict_order[0]))]
def post_empty(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    x = z3.Const('x!em', V); t = T(c.E, st, res); return [('false exactly when it has a key', z3.And(z3.Implies(t, FA(x, z3.Not(z3.Select(c.d, x)), z3.Select(c.d, x))), z3.Implies(z3.Not(t), z3.Not(FA(x, z3.Not(z3.Select(c.d, x)), z3.Select(c.d, x))))))] + nochange(c, st)
# ---- update: one assignment per pair, then per keyword
def env_up(E, c):
    env(E, c); E.contracts[U_ + ':to_pairs'] = lambda E, st, b, f: iter([(st, c.pairs)]); E.contracts[C_ + ':SparseDict.__setitem__'] = sput; E.contracts[C_ + ':Mapping.__setitem__'] = fput
def fput(E, st, b, f):
    """contract of Mapping.__setitem__ (above)"""
    c = E.ghost; k = E.to_v(b['key'])
    for s, t in E.split(st, E.dhas(st, c.r, k)):
        if not t: yield s, Exc('TypeError'); continue
        yield s.clone(), Exc('ValueRefused')
        s = s.clone(); rec(E, s, 'put', k, b['value']); yield s, None
def setup_up(c, st):
    start()(c, st); E = c.E; c.pairs, c.src = c.list(st, 'pairs'), c.obj(st, 'source'); c.kw = c.dict(st, 'keywords'); E.textkeyed.append(E.ref(c.kw)); c.distinct(st, c.me, c.fields, c.pairs, c.src, c.kw); c.pn, c.pa = E.llen(st, E.ref(c.pairs)), E.larr(st, E.ref(c.pairs)); j = z3.Int('j!u'); p = z3.Select(c.pa, j); x = z3.Const('x!u', V)
    own = lambda v: z3.And(v != ABSENT, v != c.me, z3.Implies(V.is_obj(v), V.r(v) > 0)); km = E.dmap(st, E.ref(c.kw)); kd = E.dom(st, E.ref(c.kw))
    c.assume(st, z3.And(FA(j, z3.Implies(z3.And(0 <= j, j < c.pn), z3.And(V.is_cons(p), V.is_cons(V.tl(p)), V.tl(V.tl(p)) == NIL, own(V.hd(p)), own(V.hd(V.tl(p))))), p), FA(x, own(z3.Select(km, x)), z3.Select(km, x)), FA(x, z3.Implies(z3.Select(kd, x), V.is_str(x)), z3.Select(kd, x)))); return [c.me, c.src], {}, c.kw
def upclosed(c, st):
    E = c.E; x = z3.Const('x!up', V); d, m = E.dom(st, c.r), E.dmap(st, c.r)
    out = closed(c, st) + [framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r), ('nothing is removed', FA(x, z3.Implies(z3.Select(c.d, x), z3.Select(d, x)), z3.Select(d, x), z3.Select(c.d, x)))]
    return out + ([('the keys and children are as before', z3.And(d == c.d, m == c.m))] if c.cls == FULL else [])
def puts(c, st, n):
    E = c.E; j = z3.Int('j!ps'); p = z3.Select(c.pa, j); a = lambda k, j: col(E, st, 'put', k, j); return [('each pair so far was assigned, in order', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(a(0, j) == V.hd(p), a(1, j) == V.hd(V.tl(p)))), a(0, j), p))]
def inv_pairs(L): E, c, st = L.E, L.c, L.st; return [('bound', L.i <= c.pn), ('one assignment per pair', cnt(E, st, 'put') == L.i)] + puts(c, st, L.i) + upclosed(c, st)
def inv_kw(L):
    E, c, st = L.E, L.c, L.st; n, ks, ix = E.last_dict_order; j = z3.Int('j!k'); a = lambda k, j: col(E, st, 'put', k, j); k = z3.Select(ks, j); km = E.dmap(c.st0, E.ref(c.kw))
    return [('bound', L.i <= n), ('one assignment per pair and keyword', cnt(E, st, 'put') == c.pn + L.i), ('each keyword so far was assigned', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.And(a(0, c.pn + j) == k, a(1, c.pn + j) == z3.Select(km, k))), k))] + puts(c, st, c.pn) + upclosed(c, st)
def post_up(c, st, res):
    if isexc(res): return [('raises only for unknown keys or refused values', z3.BoolVal(res.cls in ('TypeError', 'ValueRefused')))] + upclosed(c, st)
    E = c.E; x = z3.Const('x!w', V); return puts(c, st, c.pn) + upclosed(c, st)
# ---- SparseDict.set_default
def env_def(E, c):
    env(E, c); E.contracts[C_ + ':SparseDict.__setitem__'] = sput
    E.iface[SPARSE + '.default_value'] = lambda E, st, o: iter([(st, c.default)])
    def st_(E, st, b, f): st = st.clone(); rec(E, st, 'set', b['self'], b['value']); yield st, None       # contract of set: C09
    E.contracts[C_ + ':Dict.set'] = st_
def setup_def(c, st):
    a = start()(c, st); c.default = c.sym('default_value'); c.assume(st, c.default != ABSENT); return a
def nodefault(c): return z3.Or(c.default == NONE, c.default == c.E.to_v(c.E.lookup_global(c.st0, C_, 'Unspecified')))
def inv_def(L): E, c, st = L.E, L.c, L.st; return [('bound', L.i <= c.n), framed(c, st, 'dom', c.r), framed(c, st, 'map', c.r), ('traces', cnt(E, st, 'set') == 0)] + closed(c, st) + exactly(c, st) + filled(c, st, L.i)
def exactly(c, st): x = z3.Const('x!ex', V); d = c.E.dom(st, c.r); return [('exactly the required keys', FA(x, z3.Select(d, x) == z3.And(c.fs(x) < c.n, takes(c, c.fs(x))), z3.Select(d, x)))]
def filled(c, st, i):
    E = c.E; x = z3.Const('x!fi', V); m = E.dmap(st, c.r); return []
def post_def(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; u = nodefault(c); return [('a default is set', z3.Implies(z3.Not(u), z3.And(cnt(E, st, 'set') == 1, col(E, st, 'set', 0, 0) == c.me, col(E, st, 'set', 1, 0) == c.default, E.dom(st, c.r) == c.d, E.dmap(st, c.r) == c.m)))] + [(n, f) for n, f in closed(c, st)] + [(n, z3.Implies(u, f)) for n, f in exactly(c, st)]
def contracts(P):
    out = []
    def add(name, target, cls, su, po, e=env, loops=(), **k):
        def en(E, c): c.cls = cls; e(E, c)
        drop = C_ + ':' + target
        def en2(E, c): en(E, c); E.contracts.pop(drop, None)
        out.append(Contract(name, drop, su, po, env=en2, loops=loops, **k))
    M = 'Mapping.'; X = 'SparseDict.'
    add('_field_schema_for', M + '_field_schema_for', SPARSE, start('key'), post_ff, loops=[LoopSpec('fields', inv_ff)])
    for cls, q in ((FULL, M), (SPARSE, X)): add(q + '_reset', q + '_reset', cls, setup_reset, post_reset, loops=[LoopSpec('fields', inv_reset)])
    add(M + '__setitem__', M + '__setitem__', FULL, start('key', 'value'), post_set)
    add(M + '__delitem__', M + '__delitem__', FULL, start('key'), refuse(('KeyError', absent), ('TypeError', has)))
    add(M + 'pop', M + 'pop', FULL, start('key'), refuse(('KeyError', absent), ('TypeError', has)))
    for n in ('clear', 'popitem'): add(M + n, M + n, FULL, start(), refuse(('TypeError', None)))
    add(M + 'setdefault', M + 'setdefault', FULL, start('key', 'value'), refuse(('TypeError', None)))
    add(M + 'get', M + 'get', FULL, start('key', 'value'), post_get); add('SparseDict.get', M + 'get', SPARSE, start('key', 'value'), post_get)
    add(M + 'may_contain', M + 'may_contain', FULL, start('key'), post_may); add(X + 'may_contain', X + 'may_contain', SPARSE, start('key'), post_may)
    add(M + 'update', M + 'update', FULL, setup_up, post_up, env_up, [LoopSpec('pairs', inv_pairs, match=lambda E, st, fr, node, src: isinstance(src, z3.ExprRef)), LoopSpec('keywords', inv_kw, match=lambda E, st, fr, node, src: isinstance(src, DictIter))])
    add('SparseDict.update', M + 'update', SPARSE, setup_up, post_up, env_up, [LoopSpec('pairs', inv_pairs, match=lambda E, st, fr, node, src: isinstance(src, z3.ExprRef)), LoopSpec('keywords', inv_kw, match=lambda E, st, fr, node, src: isinstance(src, DictIter))])
    add(X + '__setitem__', X + '__setitem__', SPARSE, start('key', 'value'), post_sput)
    add(X + '__delitem__', X + '__delitem__', SPARSE, start('key'), post_sdel)
    add(X + 'pop', X + 'pop', SPARSE, start('key'), post_spop)
    add(X + 'clear', X + 'clear', SPARSE, start(), post_clear)
    add(X + 'popitem', X + 'popitem', SPARSE, start(), refuse(('NotImplementedError', None)))
    add(X + 'setdefault', X + 'setdefault', SPARSE, setup_sd, post_setdefault, env_sd)
    add(X + 'is_empty', X + 'is_empty', SPARSE, start(), post_empty, loops=[LoopSpec('keys', inv_empty)])
    add(X + 'set_default', X + 'set_default', SPARSE, setup_def, post_def, env_def, [LoopSpec('fields', inv_def)])
    return out
ASSUMPTIONS = ['a key that is not text does not compare equal to a field name', 'the names of the fields are distinct text (Dict.of and the form metaclass refuse others: C13, C23)', 'calling a field schema gives a fresh element of that schema with the parent it is given', 'setting a field does not touch the mapping (elements own their state); an element is as optional as its schema', 'minimum_fields is None or "required"', 'the contracts of to_pairs, field_schema_mapping and Dict.set (C09)']
