"""C06: sequences hold only elements, in list order; every member leads back to the sequence; list members are numbered by position."""
from common import *
C_ = 'flatland.schema.containers'
EL = 'flatland.schema.base:Element'
ARRAY, LIST = C_ + ':Array', C_ + ':List'
def at(E, st, r, j): return z3.Select(E.larr(st, r), j)
def fld(E, st, name, v): return z3.Select(E.comp(st, 'f.' + name), V.r(v))
def is_el(E, v): return z3.And(V.is_obj(v), E.uf('isinst_' + EL, I, B)(V.r(v)))
def text(E, j): return V.str(E.uf('decimal', I, S)(j))
def member(c, st, j): s = at(c.E, st, c.r, j); return fld(c.E, st, 'element', s) if c.cls == LIST else s
def before(c, j): return member(c, c.st0 or c.stw, j)
# ---- well-formedness
def wf(c, st, numbered=True, n=None):
    """what holds between operations, of the first n entries"""
    E = c.E; j, k = z3.Int('j!w'), z3.Int('k!w'); n = E.llen(st, c.r) if n is None else n; s = at(E, st, c.r, j); e = member(c, st, j); rng = z3.And(0 <= j, j < n)
    out = [('holds only elements', FA(j, z3.Implies(rng, z3.And(V.is_obj(s), s != c.me, is_el(E, e), e != c.me)), s))]
    if c.cls == LIST:
        out += [("each member's parent is its slot, whose parent is the list", FA(j, z3.Implies(rng, z3.And(fld(E, st, 'parent', e) == s, fld(E, st, 'parent', s) == c.me)), s)), ('the slots are different', FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), s != at(E, st, c.r, k)), (s, at(E, st, c.r, k))))]
        if numbered: out += [('numbered by position', FA(j, z3.Implies(rng, fld(E, st, 'name', s) == text(E, j)), s))]
    else: out += [("each member's parent is the sequence", FA(j, z3.Implies(rng, fld(E, st, 'parent', s) == c.me), s))]
    return out
def world(c, st):
    E = c.E; c.stw = st; c.me = c.list(st, 'sequence', c.cls); c.r = E.ref(c.me); c.n, c.a = E.llen(st, c.r), E.larr(st, c.r); c.schema = c.sym('member_schema'); E.setf(st, c.r, 'member_schema', c.schema); c.assume(st, z3.And(V.is_sym(c.schema), E.truth(st, c.schema)))
    if c.cls == LIST: pin(c, st, c.me, LIST, 'slot_type'); c.pos = E.uf('position_of_slot', I, I)
    for nm, f in wf(c, st):
        if nm != 'the slots are different': c.assume(st, f)      # (they have positions, below)
    j = z3.Int('j!e'); s = z3.Select(c.a, j); e = member(c, st, j); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.r(s) > 0, V.r(e) > 0, s != NONE) if c.cls != LIST else z3.And(V.r(s) > 0, V.r(e) > 0, c.pos(V.r(s)) == j)), s))
    for nm in ('name', 'parent', 'element'): E.comp(st, 'f.' + nm)
    trace(c, st, 'new', 2); trace(c, st, 'set', 2)
    c.value = c.sym('value'); c.assume(st, value_ok(c, st, c.value)); c.ix = c.sym('index', I); c.assume(st, c.value != E.to_v(E.lookup_global(st, C_, 'Unspecified')))
    c.lo, c.hi, c.step = c.sym('lo'), c.sym('hi'), c.sym('step'); c.assume(st, z3.And([z3.Or(x == NONE, V.is_int(x)) for x in (c.lo, c.hi, c.step)])); c.vals = None
def value_ok(c, st, v):
    """plain values, and elements that are not members yet"""
    E = c.E; j = z3.Int('j!v'); s = at(E, st, c.r, j); return z3.And(v != ABSENT, v != c.me, z3.Implies(V.is_obj(v), V.r(v) > 0), FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(s != v, member(c, st, j) != v)), s))
def values(c, st):
    """an iterable of such values, no element twice"""
    E = c.E; c.vals = c.list(st, 'values'); r = E.ref(c.vals); c.distinct(st, c.me, c.vals); c.vn, c.va = E.llen(st, r), E.larr(st, r); i, j = z3.Int('i!v'), z3.Int('j!v'); v = lambda i: z3.Select(c.va, i); s = at(E, st, c.r, j); c.vpos = E.uf('position_in_values', V, I)
    c.assume(st, z3.And(FA(i, z3.Implies(z3.And(0 <= i, i < c.vn), z3.And(v(i) != ABSENT, v(i) != c.me, z3.Implies(V.is_obj(v(i)), z3.And(V.r(v(i)) > 0)), z3.Implies(is_el(E, v(i)), c.vpos(v(i)) == i), v(i) != E.to_v(E.lookup_global(st, C_, 'Unspecified')))), v(i)),
                        FA([i, j], z3.Implies(z3.And(0 <= i, i < c.vn, 0 <= j, j < c.n, is_el(E, v(i))), z3.And(s != v(i), member(c, st, j) != v(i))), (v(i), s))))
def env(E, c):
    fields(E, 'parent', 'name', 'element'); q = LIST
    def setat(E, st, o, n, v):
        if n not in ('parent', 'name', 'element'): raise Unsupported('assignment to .%s' % n)
        st = st.clone(); E.setf(st, E.ref(o), n, E.to_v(v)); yield st, None
    E.iface['setattr'] = setat
    def create(E, st, f, args, kw):          # calling the member schema: a fresh element, unless the value is refused
        a = list(args) + [kw[k] for k in kw]
        if not E.to_v(f).eq(c.schema): raise Unsupported('call of an unknown value')
        if a: yield st.clone(), Exc('ValueRefused')
        st = st.clone(); v = E.alloc(st); st.pc = st.pc + (is_el(E, v),); E.setf(st, E.ref(v), 'parent', None); rec(E, st, 'new', v, a[0] if a else NIL); yield st, v
    E.extcall = create
    def uni(E, st, args, kw):
        x = E.from_v(args[0])
        if isinstance(x, (int, z3.ExprRef)) and not isinstance(x, bool):
            v = E.to_v(x)
            if E.ctor(v) == 'int': yield st, text(E, z3.simplify(V.i(v))); return
            if E.ctor(v) == 'str': yield st, v; return
        for r in E.bi_unicode(st, args, kw, None): yield r
    E.ext['unicode'] = E.ext['str'] = uni; E.assumed.add('str of an int is its decimal text')
    def setter(E, st, o, args, kw):
        for x in ('ValueRefused', 'TypeError'): yield st.clone(), Exc(x)
        st = st.clone(); n = cnt(E, st, 'set'); rec(E, st, 'set', o, args[0]); yield st, V.bool(E.uf('accepts', I, B)(n))
    E.icall['set'] = setter
    E.contracts[C_ + ':List._renumber'] = renumber
def renumber(E, st, b, f):
    """contract of _renumber (below); needs different slots"""
    c = E.ghost; n = E.llen(st, c.r); j, k, r = z3.Ints('j!rn k!rn r!rn'); s = at(E, st, c.r, j)
    E.oblige(st, 'renumbering different slots', z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), s != at(E, st, c.r, k))), 'pre')
    st = st.clone(); A1 = E.fresh(AV, 'slots'); st.pc = st.pc + (FA(j, z3.Select(A1, j) == z3.simplify(s), z3.Select(A1, j)),); E.lset(st, c.r, n, A1); s = z3.Select(A1, j)      # a name for the list as it is
    p0 = E.comp(st, 'f.name'); p1 = E.fresh(p0.sort(), 'names'); st.heap['f.name'] = p1
    st.pc = st.pc + (FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(p1, V.r(s)) == text(E, j)), s),); yield st, None
def start(*more):
    def f(c, st):
        world(c, st)
        if any(m == 'values' for m in more): values(c, st)
        m = {'value': c.value, 'index': V.int(c.ix), 'slice': SliceV(c.lo, c.hi, None), 'xslice': SliceV(c.lo, c.hi, c.step), 'values': c.vals, 'i': V.int(c.ix), 'j': None}; 
        if 'j' in more: m['j'] = V.int(c.sym('end', I)); c.j = V.i(m['j'])
        return [c.me] + [m[k] for k in more]
    return f
# ---- what an operation did
def members(c, st, n, e):
    """there are now n members, the j-th is e(j)"""
    E = c.E; j = z3.Int('j!m'); return [('length', E.llen(st, c.r) == n), ('the members, in order', FA(j, z3.Implies(z3.And(0 <= j, j < n), e(j, member(c, st, j)))))]
def untouched(c, st):
    """nothing about the sequence changed"""
    E = c.E; return members(c, st, c.n, lambda j, m: m == before(c, j)) + ([('the slots', E.larr(st, c.r) == c.a)] if c.cls == LIST else [])
def good(c, st): return wf(c, st) + [framed(c, st, 'llen', c.r)]
def new_for(c, st, v, m, k=0):
    """m is v itself if that is an element, else the element made from it"""
    E = c.E; return z3.If(is_el(E, v), m == v, z3.And(V.r(m) < 0, cnt(E, st, 'new') == k + 1, col(E, st, 'new', 0, k) == m, col(E, st, 'new', 1, k) == v))
def refused(c, st, res, *more):
    ok = [('ValueRefused', z3.Not(is_el(c.E, c.value)))] + list(more); return [('raises only as stated (not %s)' % res.cls, z3.Or([z3.And(z3.BoolVal(res.cls == k), g) for k, g in ok]))] + untouched(c, st) + good(c, st)
def post_append(c, st, res):
    if isexc(res): return refused(c, st, res)
    return members(c, st, c.n + 1, lambda j, m: z3.If(j < c.n, m == before(c, j), new_for(c, st, c.value, m))) + good(c, st)
def post_insert(c, st, res):
    if isexc(res): return refused(c, st, res)
    i = c.ix; p = z3.If(i < 0, z3.If(i + c.n < 0, 0, i + c.n), z3.If(i > c.n, c.n, i))
    return members(c, st, c.n + 1, lambda j, m: z3.If(j < p, m == before(c, j), z3.If(j == p, new_for(c, st, c.value, m), m == before(c, j - 1)))) + good(c, st)
def absix(c): return z3.If(c.ix < 0, c.ix + c.n, c.ix)
def inrange(c): p = absix(c); return z3.And(0 <= p, p < c.n)
def post_setitem(c, st, res):
    E = c.E; p = absix(c)
    if isexc(res):
        ok = [('ValueRefused', z3.Not(is_el(E, c.value))), ('TypeError', z3.Not(is_el(E, c.value))), ('IndexError', z3.Not(inrange(c)))]; return [('raises only as stated (not %s)' % res.cls, z3.Or([z3.And(z3.BoolVal(res.cls == k), g) for k, g in ok]))] + untouched(c, st) + good(c, st)
    if c.cls == LIST:   # a plain value is given to the member that is there
        kept = z3.And(cnt(E, st, 'set') == 1, col(E, st, 'set', 0, 0) == before(c, p), col(E, st, 'set', 1, 0) == c.value)
        return [('in range', inrange(c)), ('a plain value is set on the member', z3.Implies(z3.Not(is_el(E, c.value)), kept))] + members(c, st, c.n, lambda j, m: m == z3.If(z3.And(j == p, is_el(E, c.value)), c.value, before(c, j))) + good(c, st)
    return [('in range', inrange(c))] + members(c, st, c.n, lambda j, m: z3.If(j == p, new_for(c, st, c.value, m), m == before(c, j))) + good(c, st)
def bounds(c):
    cl = lambda x, d: z3.If(x == NONE, d, z3.If(V.i(x) < 0, z3.If(V.i(x) + c.n < 0, 0, V.i(x) + c.n), z3.If(V.i(x) > c.n, c.n, V.i(x))))
    lo, hi = cl(c.lo, z3.IntVal(0)), cl(c.hi, c.n); return lo, z3.If(hi < lo, lo, hi)
def bounds2(c):
    cl = lambda x: z3.If(x < 0, 0, z3.If(x > c.n, c.n, x)); lo, hi = cl(c.ix), cl(c.j); return lo, z3.If(hi < lo, lo, hi)
def from_values(c, st, i, m): v = z3.Select(c.va, i); return z3.If(is_el(c.E, v), m == v, z3.And(V.r(m) < 0, is_el(c.E, m)))
def rexc(c, st, res, *more):
    return [('raises only as stated (not %s)' % res.cls, z3.Or([z3.BoolVal(res.cls == k) for k in ('ValueRefused',) + more]))] + untouched(c, st) + good(c, st)
def post_setslice(bnd):
    def post(c, st, res):
        if isexc(res): return rexc(c, st, res)
        lo, hi = bnd(c); return members(c, st, c.n - (hi - lo) + c.vn, lambda j, m: z3.If(j < lo, m == before(c, j), z3.If(j < lo + c.vn, from_values(c, st, j - lo, m), m == before(c, j - c.vn + hi - lo)))) + good(c, st)
    return post
def pos(c): return c.E.slice_positions(SliceV(c.lo, c.hi, c.step), c.n)
def post_xset(c, st, res):
    if isexc(res): return rexc(c, st, res, 'ValueError')
    lo, hi = bounds(c); plain = members(c, st, c.n - (hi - lo) + c.vn, lambda j, m: z3.If(j < lo, m == before(c, j), z3.If(j < lo + c.vn, from_values(c, st, j - lo, m), m == before(c, j - c.vn + hi - lo))))
    ext = []
    if 1:
        m_, at_, of = pos(c); hit = lambda j: z3.And(0 <= of(j), of(j) < m_, at_(of(j)) == j); ext = members(c, st, c.n, lambda j, m: z3.If(hit(j), from_values(c, st, of(j), m), m == before(c, j)))
    one = z3.Or(c.step == NONE, c.step == V.int(1)); return [('plain: ' + n, z3.Implies(one, f)) for n, f in plain] + [('extended: ' + n, z3.Implies(z3.Not(one), f)) for n, f in ext] + good(c, st)
def post_delitem(c, st, res):
    p = absix(c)
    if isexc(res): return [('only IndexError, out of range', z3.And(z3.BoolVal(res.cls == 'IndexError'), z3.Not(inrange(c))))] + untouched(c, st) + good(c, st)
    return [('in range', inrange(c))] + members(c, st, c.n - 1, lambda j, m: m == before(c, z3.If(j < p, j, j + 1))) + good(c, st)
def post_pop(default):
    def post(c, st, res):
        E = c.E; p = c.n - 1 if default else absix(c); ok = z3.And(0 <= p, p < c.n)
        if isexc(res): return [('only IndexError, out of range', z3.And(z3.BoolVal(res.cls == 'IndexError'), z3.Not(ok)))] + untouched(c, st) + good(c, st)
        return [('the removed member', z3.And(ok, E.to_v(res) == before(c, p))), ('is out of the tree', fld(E, st, 'parent', E.to_v(res)) == NONE)] + members(c, st, c.n - 1, lambda j, m: m == before(c, z3.If(j < p, j, j + 1))) + good(c, st)
    return post
def post_delslice(bnd):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        lo, hi = bnd(c); return members(c, st, c.n - (hi - lo), lambda j, m: m == before(c, z3.If(j < lo, j, j + hi - lo))) + good(c, st)
    return post
def post_xdel(c, st, res):
    if isexc(res): return [('only ValueError for step zero', z3.And(z3.BoolVal(res.cls == 'ValueError'), c.step == V.int(0)))] + untouched(c, st) + good(c, st)
    lo, hi = bounds(c); one = z3.Or(c.step == NONE, c.step == V.int(1)); ext = []
    ext = members(c, st, c.n - pos(c)[0], lambda j, m: m == before(c, c.E.slice_keeps(SliceV(c.lo, c.hi, c.step), c.n)(j)))
    return [('plain: ' + n, z3.Implies(one, f)) for n, f in members(c, st, c.n - (hi - lo), lambda j, m: m == before(c, z3.If(j < lo, j, j + hi - lo)))] + [('extended: ' + n, z3.Implies(z3.Not(one), f)) for n, f in ext] + good(c, st)
def post_reverse(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return members(c, st, c.n, lambda j, m: m == before(c, c.n - 1 - j)) + good(c, st)
def post_sort(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; j = z3.Int('j!s'); p = lambda j: c.pos(V.r(at(E, st, c.r, j))); return [('the same members', z3.And(E.llen(st, c.r) == c.n, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(0 <= p(j), p(j) < c.n, member(c, st, j) == before(c, p(j)))))))] + good(c, st)
def post_remove(c, st, res):
    E = c.E; j, p, k = z3.Int('j!r'), z3.Int('p!r'), E.llen(st, c.r)
    if isexc(res): return [('raises only as stated (not %s)' % res.cls, z3.BoolVal(res.cls in ('ValueRefused', 'ValueError')))] + untouched(c, st) + good(c, st)
    x = z3.If(is_el(E, c.value), c.value, col(E, st, 'new', 0, 0)); eq = lambda p: E.eq(st, z3.Select(c.a, p), x)
    return [('length', k == c.n - 1), ('the first equal one is gone', exw([p], z3.And(0 <= p, p < c.n, eq(p), FA(j, z3.Implies(z3.And(0 <= j, j < p), z3.Not(eq(j)))), FA(j, z3.Implies(z3.And(0 <= j, j < c.n - 1), at(E, st, c.r, j) == z3.Select(c.a, z3.If(j < p, j, j + 1))))), (cnt(E, st, 'found'),)))] + good(c, st)
# ---- reading
def same(c, st): return untouched(c, st) + good(c, st) + unchanged(c, st, 'f.parent', 'f.name', 'f.element')
def post_getitem(c, st, res):
    if isexc(res): return [('only IndexError, out of range', z3.And(z3.BoolVal(res.cls == 'IndexError'), z3.Not(inrange(c))))] + same(c, st)
    return [('the member itself', z3.And(inrange(c), c.E.to_v(res) == before(c, absix(c))))] + same(c, st)
def listing(c, st, res, n, e):
    E = c.E; r = E.ref(E.to_v(res)); j = z3.Int('j!l'); return [('as many', E.llen(st, r) == n), ('the members themselves, in order', FA(j, z3.Implies(z3.And(0 <= j, j < n), at(E, st, r, j) == e(j))))]
def post_getslice(bnd):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        lo, hi = bnd(c); return listing(c, st, res, hi - lo, lambda j: before(c, lo + j)) + same(c, st)
    return post
def post_xget(c, st, res):
    if isexc(res): return [('only ValueError for step zero', z3.And(z3.BoolVal(res.cls == 'ValueError'), c.step == V.int(0)))] + same(c, st)
    lo, hi = bounds(c); one = z3.Or(c.step == NONE, c.step == V.int(1)); ext = []
    ext = listing(c, st, res, pos(c)[0], lambda j: before(c, pos(c)[1](j)))
    return [('plain: ' + n, z3.Implies(one, f)) for n, f in listing(c, st, res, hi - lo, lambda j: before(c, lo + j))] + [('extended: ' + n, z3.Implies(z3.Not(one), f)) for n, f in ext] + same(c, st)
def post_iter(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return listing(c, st, res, c.n, lambda j: before(c, j)) + same(c, st)
def inv_iter(L): E, c, st = L.E, L.c, L.st; j = z3.Int('j!i'); return [('bound', L.i <= c.n), ('count', E.llen(st, L.out) == L.i), ('the members so far', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), at(E, st, L.out, j) == before(c, j)), at(E, st, L.out, j)))]
def post_look(kind):
    def post(c, st, res):
        E = c.E; j = z3.Int('j!q')
        if isexc(res) and not (kind == 'index' and res.cls == 'ValueError'): return refused(c, st, res)
        x = z3.If(is_el(E, c.value), c.value, col(E, st, 'new', 0, 0)); eq = lambda p: E.eq(st, z3.Select(c.a, p), x); none = FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.Not(eq(j))), z3.Select(c.a, j))
        if kind == 'index':
            if isexc(res): return [('no equal member', none)] + untouched(c, st)
            i = V.i(E.to_v(res)); return [('the first equal member', z3.And(0 <= i, i < c.n, eq(i), FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.Not(eq(j))))))] + untouched(c, st) + good(c, st)
        t = T(E, st, res); return [('whether some member is equal', z3.And(z3.Implies(z3.Not(t), none), z3.Implies(t, z3.Not(none))))] + untouched(c, st) + good(c, st)
    return post
# ---- _renumber and slots
def setup_renumber(c, st):
    world(c, st); E = c.E; r = z3.Int('r!0'); c.names0 = E.fresh(E.comp(st, 'f.name').sort(), 'any_names'); st.heap['f.name'] = c.names0; return [c.me]
def inv_renumber(L):
    E, c, st = L.E, L.c, L.st; j, r = z3.Int('j!i'), z3.Int('r!i'); nm = E.comp(st, 'f.name'); s = z3.Select(c.a, j); return [('bound', L.i <= c.n), ('numbered so far', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.Select(nm, V.r(s)) == text(E, j)), s)), ('nothing else is renamed', FA(r, z3.Or(z3.Select(nm, r) == z3.Select(c.names0, r), z3.And(0 <= c.pos(r), c.pos(r) < L.i, V.r(z3.Select(c.a, c.pos(r))) == r)), z3.Select(nm, r)))]
def post_renumber(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; r = z3.Int('r!p'); nm = E.comp(st, 'f.name'); return [('nothing else is renamed', FA(r, z3.Or(z3.Select(nm, r) == z3.Select(c.names0, r), z3.And(0 <= c.pos(r), c.pos(r) < c.n, V.r(z3.Select(c.a, c.pos(r))) == r)), z3.Select(nm, r)))] + good(c, st) + untouched(c, st) + unchanged(c, st, 'f.parent', 'f.element')
def setup_slot(given):
    def f(c, st): world(c, st); return [c.me] + ([c.value] if given else [])
    return f
def post_slot(given):
    def post(c, st, res):
        E = c.E
        if isexc(res): return refused(c, st, res)
        s = E.to_v(res); e = fld(E, st, 'element', s); made = z3.And(V.r(e) < 0, is_el(E, e), cnt(E, st, 'new') == 1, col(E, st, 'new', 0, 0) == e)
        return [('a new slot of the list around the element', z3.And(V.r(s) < 0, s != e, fld(E, st, 'parent', s) == c.me, fld(E, st, 'parent', e) == s)), ('named for the next position', fld(E, st, 'name', s) == text(E, c.n)),
                ('the element given, or a new one', z3.If(is_el(E, c.value), e == c.value, z3.And(made, col(E, st, 'new', 1, 0) == c.value)) if given else z3.And(made, col(E, st, 'new', 1, 0) == NIL))] + untouched(c, st) + good(c, st)
    return post
# ---- loops: extend, slice assignment, set
def settled(c, st, n):
    """the first n entries are the members from before"""
    E = c.E; j = z3.Int('j!st'); s = at(E, st, c.r, j); return [('the members from before stay', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(s == z3.Select(c.a, j), member(c, st, j) == before(c, j))), s))]
def later(c, st, i):
    """values not handled yet are still no members"""
    E = c.E; j, k = z3.Int('j!la'), z3.Int('k!la'); s = at(E, st, c.r, j); v = z3.Select(c.va, k); n = E.llen(st, c.r); return [('values to come are not members', FA([j, k], z3.Implies(z3.And(0 <= j, j < n, i <= k, k < c.vn, is_el(E, v)), z3.And(s != v, member(c, st, j) != v)), (s, v)))]
def inv_extend(L):
    E, c, st = L.E, L.c, L.st; j = z3.Int('j!x'); s = at(E, st, c.r, j); return [('bound', L.i <= c.vn), ('length', E.llen(st, c.r) == c.n + L.i), ('the values so far', FA(j, z3.Implies(z3.And(c.n <= j, j < c.n + L.i), from_values(c, st, j - c.n, member(c, st, j))), s))] + settled(c, st, c.n) + later(c, st, L.i) + wf(c, st) + [framed(c, st, 'llen', c.r)] + hygiene(c, st)
def hygiene(c, st):
    """sequence members are never slots of it or itself; references stay valid"""
    E = c.E; j, k = z3.Int('j!hy'), z3.Int('k!hy'); s = at(E, st, c.r, j); n = E.llen(st, c.r)
    return [('they exist', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.r(s) >= -st.alloc, V.r(member(c, st, j)) >= -st.alloc)), s))] + ([('no member is a slot', FA([j, k], z3.Implies(z3.And(0 <= j, j < n, 0 <= k, k < n), member(c, st, j) != at(E, st, c.r, k)), (s, at(E, st, c.r, k))))] if c.cls == LIST else [])
def post_extend(c, st, res):
    if isexc(res): return [('raises only when a value is refused (not %s)' % res.cls, z3.BoolVal(res.cls == 'ValueRefused'))] + good(c, st)
    return [('the sequence itself', c.E.to_v(res) == c.me)] * (c.con.name.endswith('__iadd__')) + members(c, st, c.n + c.vn, lambda j, m: z3.If(j < c.n, m == before(c, j), from_values(c, st, j - c.n, m))) + good(c, st)
def fresh_slots(c, st, r, i):
    """the list under construction holds i new, different slots around the values so far"""
    E = c.E; j, k = z3.Int('j!n'), z3.Int('k!n'); s, s2 = at(E, st, r, j), at(E, st, r, k); e = fld(E, st, 'element', s); v = z3.Select(c.va, j)
    return [('count', E.llen(st, r) == i), ('new slots around the values', FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.And(V.is_obj(s), V.r(s) < 0, V.r(s) >= -st.alloc, V.r(e) >= -st.alloc, is_el(E, e), e != s, e != c.me, fld(E, st, 'parent', e) == s, fld(E, st, 'parent', s) == c.me, from_values(c, st, j, e))), s)), ('all different', FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < i), z3.And(s != s2, e != s2, s != fld(E, st, 'element', s2), e != fld(E, st, 'element', s2))), (s, s2))), ('not those to come', FA([j, k], z3.Implies(z3.And(0 <= j, j < i, i <= k, k < c.vn, is_el(E, z3.Select(c.va, k))), z3.And(s != z3.Select(c.va, k), e != z3.Select(c.va, k))), (s, z3.Select(c.va, k))))]
def quiet(c, st):
    """existing members, slots and names are as they were"""
    E = c.E; j = z3.Int('j!qt'); s = z3.Select(c.a, j); f = lambda st, n: fld(E, st, n, s); e0 = before(c, j)
    parts = [fld(E, st, 'parent', s) == c.me] if c.cls != LIST else [f(st, 'parent') == c.me, f(st, 'name') == text(E, j), f(st, 'element') == e0, fld(E, st, 'parent', e0) == s]
    return [('the sequence is as before', z3.And(E.llen(st, c.r) == c.n, E.larr(st, c.r) == c.a, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(parts)), s)))]
def inv_slots(L): E, c, st = L.E, L.c, L.st; return [('bound', L.i <= c.vn)] + fresh_slots(c, st, E.lcout, L.i) + quiet(c, st)
def inv_items(L):
    E, c, st = L.E, L.c, L.st; r = E.ref(L.var('as_elements')); j = z3.Int('j!ii'); e = at(E, st, r, j); return [('bound', L.i <= c.vn), ('count', E.llen(st, r) == L.i), ('elements of the sequence', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.And(is_el(E, e), e != c.me, fld(E, st, 'parent', e) == c.me, from_values(c, st, j, e))), e)), framed(c, st, 'llen', c.r)] + quiet(c, st)
# ---- set
def env_set(E, c):
    env(E, c)
    def ext(E, st, b, f):                    # contract of extend, for new elements: they become the members
        c = E.ghost; v = E.to_v(b['iterable']); E.oblige(st, 'the members were removed', E.llen(st, c.r) == 0, 'pre'); st = st.clone(); rec(E, st, 'ext', v); yield st, None
    E.contracts[C_ + ':Sequence.extend'] = E.contracts[C_ + ':List.extend'] = ext
    def dele(E, st, b, f): st = st.clone(); E.lset(st, c.r, z3.IntVal(0), z3.K(I, ABSENT)); yield st, None       # contract of __delitem__ / __delslice__ for [:]
    E.contracts[C_ + ':List.__delitem__'] = E.contracts[C_ + ':List.__delslice__'] = dele
def setup_set(c, st): a = start('values')(c, st); trace(c, st, 'ext', 1); return a
def inv_set(L):
    E, c, st = L.E, L.c, L.st; r = E.ref(L.var('values')); j = z3.Int('j!st'); e = at(E, st, r, j); a = lambda k, j: col(E, st, 'set', k, j)
    return [('bound', L.i <= c.vn), ('one new element per value', z3.And(E.llen(st, r) == L.i, cnt(E, st, 'set') == L.i)), ('set to it', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), z3.And(is_el(E, e), V.r(e) < 0, a(0, j) == e, a(1, j) == z3.Select(c.va, j))), e, a(0, j))), ('nothing is a member yet', z3.And(E.llen(st, c.r) == 0, cnt(E, st, 'ext') == 0)), ('all accepted so far', T(E, st, L.var('converted')) == FA(j, z3.Implies(z3.And(0 <= j, j < L.i), E.uf('accepts', I, B)(j)), E.uf('accepts', I, B)(j))), ('raw', E.getf(st, c.r, 'raw') == c.vals), ('a boolean', V.is_bool(L.var('converted')))]
def post_setall(c, st, res):
    E = c.E; j = z3.Int('j!ps'); raw = [('raw', E.getf(st, c.r, 'raw') == c.vals)]; n = cnt(E, st, 'ext')
    if isexc(res): return [('raises only when a member does (not %s)' % res.cls, z3.BoolVal(res.cls == 'ValueRefused')), ('no members', z3.And(E.llen(st, c.r) == 0, n == 0))] + raw
    done = n == 1; l = E.ref(col(E, st, 'ext', 0, 0)); a = lambda k, j: col(E, st, 'set', k, j); t = T(E, st, res)
    return [('the new elements became the members, or (when one raises TypeError) False and no members', z3.Or(done, z3.And(n == 0, z3.Not(t)))), ('one per value, set to it, in order', z3.Implies(done, z3.And(E.llen(st, l) == c.vn, FA(j, z3.Implies(z3.And(0 <= j, j < c.vn), z3.And(a(0, j) == at(E, st, l, j), a(1, j) == z3.Select(c.va, j))))))), ('True exactly when every value was accepted', z3.Implies(done, t == FA(j, z3.Implies(z3.And(0 <= j, j < c.vn), E.uf('accepts', I, B)(j)), E.uf('accepts', I, B)(j))))] + raw
def contracts(P):
    out = []
    def add(name, target, cls, su, po, loops=(), e=env, **k):
        q = C_ + ':' + target
        def en(E, c): c.cls = cls; e(E, c); E.contracts.pop(q, None)
        out.append(Contract(name, q, su, po, env=en, loops=loops, **k))
    A, X = 'Sequence.', 'List.'
    add('_renumber', X + '_renumber', LIST, setup_renumber, post_renumber, [LoopSpec('slots', inv_renumber)])
    add('_new_slot', X + '_new_slot', LIST, setup_slot(0), post_slot(0)); add('_new_slot(value)', X + '_new_slot', LIST, setup_slot(1), post_slot(1))
    for cls, q in ((ARRAY, A), (LIST, X)):
        n = 'Array.' if cls == ARRAY else X
        add(n + 'append', q + 'append', cls, start('value'), post_append)
        add(n + 'insert', q + 'insert', cls, start('index', 'value'), post_insert)
        add(n + '__setitem__', q + '__setitem__', cls, start('index', 'value'), post_setitem)
        lp = [LoopSpec('values', inv_slots if cls == LIST else inv_items)]
        add(n + '__setitem__(slice)', q + '__setitem__', cls, start('slice', 'values'), post_setslice(bounds), lp)
        add(n + '__setitem__(extended slice)', q + '__setitem__', cls, start('xslice', 'values'), post_xset, [LoopSpec('values', inv_slots if cls == LIST else inv_items)])
        add(n + '__setslice__', q + '__setslice__', cls, start('i', 'j', 'values'), post_setslice(bounds2), [LoopSpec('values', inv_slots if cls == LIST else inv_items)])
        add(n + 'extend', q + 'extend', cls, start('values'), post_extend, [LoopSpec('values', inv_extend)])
        add(n + '__iadd__', A + '__iadd__', cls, start('values'), post_extend, [LoopSpec('values', inv_extend)])
        add(n + 'index', A + 'index', cls, start('value'), post_look('index')); add(n + '__contains__', A + '__contains__', cls, start('value'), post_look('in'))
        add(n + 'set', A + 'set', cls, setup_set, post_setall, [LoopSpec('values', inv_set)], env_set)
        add(n + 'remove', q + 'remove', cls, start('value'), post_remove)
    add(X + '__delitem__', X + '__delitem__', LIST, start('index'), post_delitem); add(X + '__delitem__(slice)', X + '__delitem__', LIST, start('slice'), post_delslice(bounds)); add(X + '__delitem__(extended slice)', X + '__delitem__', LIST, start('xslice'), post_xdel); add(X + '__delslice__', X + '__delslice__', LIST, start('i', 'j'), post_delslice(bounds2))
    add(X + 'pop', X + 'pop', LIST, start('index'), post_pop(0)); add(X + 'pop()', X + 'pop', LIST, start(), post_pop(1)); add(X + 'reverse', X + 'reverse', LIST, start(), post_reverse); add(X + 'sort', X + 'sort', LIST, start(), post_sort)
    add(X + '__getitem__', X + '__getitem__', LIST, start('index'), post_getitem); add(X + '__getitem__(slice)', X + '__getitem__', LIST, start('slice'), post_getslice(bounds)); add(X + '__getitem__(extended slice)', X + '__getitem__', LIST, start('xslice'), post_xget); add(X + '__getslice__', X + '__getslice__', LIST, start('i', 'j'), post_getslice(bounds2))
    add(X + '__iter__', X + '__iter__', LIST, start(), post_iter, [LoopSpec('slots', inv_iter)], collect=True); add(X + 'children', X + 'children', LIST, start(), post_iter, [LoopSpec('slots', inv_iter)], collect=True); add('Array.children', A + 'children', ARRAY, start(), post_iter, collect=True)
    return out
ASSUMPTIONS = ['inserted elements are fresh: not members of the sequence, not itself, not given twice', 'calling the member schema gives a fresh element', 'the list type itself (storage, positions an extended slice denotes, order that sort(key) produces)', 'equality of elements is a function of the two (Element.__eq__)']
