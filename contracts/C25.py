"""C25: resetting an element gives it what its schema says: the factory's result or the default; lists a number of members."""
from common import *
import C06, C08
B_, C_ = 'flatland.schema.base', 'flatland.schema.containers'
EL, LIST, ARRAY = B_ + ':Element', C06.LIST, C06.ARRAY
SC, JS = 'flatland.schema.scalars:Scalar', 'flatland.schema.compound:JoinedString'
def un(c): return c.E.to_v(c.E.lookup_global(c.st0 if getattr(c, 'st0', None) is not None else c.stw, C_, 'Unspecified'))
# ---- default_value
def env_dv(E, c):
    def call(E, st, f, args, kw):
        st = st.clone(); r = E.fresh(V, 'made'); st.pc = st.pc + (r != ABSENT, z3.Implies(V.is_obj(r), V.r(r) > 0))
        if kw: raise Unsupported('keywords')
        rec(E, st, 'call', f, args[0] if args else NIL, V.int(z3.IntVal(len(args))), r); yield st, r
    E.extcall = call
def setup_dv(c, st):
    E = c.E; c.me = c.obj(st, 'element', 'flatland.schema.scalars:String'); c.factory, c.default = c.sym('default_factory'), c.sym('default'); c.assume(st, z3.And(c.factory != ABSENT, c.default != ABSENT, z3.Or(c.factory == NONE, z3.And(V.is_obj(c.factory), V.r(c.factory) > 0))))
    c.distinct(st, c.me); E.setf(st, E.ref(c.me), 'default_factory', c.factory); E.setf(st, E.ref(c.me), 'default', c.default); trace(c, st, 'call', 4); return [c.me]
def post_dv(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; n = cnt(E, st, 'call'); f = c.factory == NONE; a = lambda k: col(E, st, 'call', k, 0)
    return [('without a factory: the default', z3.Implies(f, z3.And(n == 0, E.to_v(r) == c.default))), ('the factory, called once, with the element, gives it', z3.Implies(z3.Not(f), z3.And(n == 1, a(0) == c.factory, a(1) == c.me, a(2) == V.int(1), E.to_v(r) == a(3))))]
# ---- from_defaults
def env_fd(E, c):
    def call(E, st, f, args, kw, star, starpos):
        if not E.to_v(f).eq(c.cls): raise Unsupported('call of an unknown value')
        st = st.clone(); v = E.alloc(st); rec(E, st, 'new', v, V.int(z3.IntVal(len(args) + len(kw))), star if star is not None else NIL); yield st, v
    E.ext['starcall'] = call
    def sd(E, st, o, args, kw): st = st.clone(); rec(E, st, 'reset', o, V.int(z3.IntVal(len(args) + len(kw)))); yield st, None
    E.icall['set_default'] = sd
def setup_fd(c, st):
    c.cls = c.obj(st, 'schema'); c.kw = c.dict(st, 'kw'); r = c.E.ref(c.kw); c.distinct(st, c.cls, c.kw); c.E.textkeyed.append(r); x = z3.Const('x!kw', V); c.assume(st, FA(x, z3.Implies(z3.Select(c.E.dom(st, r), x), V.is_str(x)), z3.Select(c.E.dom(st, r), x))); trace(c, st, 'new', 3); trace(c, st, 'reset', 2); return [c.cls], {}, c.kw
def post_fd(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; k = E.ref(col(E, st, 'new', 2, 0)); return [('one element is created, with the keywords given', z3.And(cnt(E, st, 'new') == 1, col(E, st, 'new', 0, 0) == E.to_v(r), col(E, st, 'new', 1, 0) == V.int(0), E.dom(st, k) == E.dom(c.st0, E.ref(c.kw)), E.dmap(st, k) == E.dmap(c.st0, E.ref(c.kw)))), ('and reset, once', z3.And(cnt(E, st, 'reset') == 1, col(E, st, 'reset', 0, 0) == E.to_v(r), col(E, st, 'reset', 1, 0) == V.int(0)))]
# ---- scalars and joined strings
def dflt(c, st, cls):
    E = c.E; c.default = c.sym('default_value'); c.assume(st, z3.And(c.default != ABSENT, z3.Implies(V.is_obj(c.default), V.r(c.default) > 0)))
def env_s(cls, *setq):
    def env(E, c):
        c.cls = cls; E.iface[cls + '.default_value'] = lambda E, st, o: iter([(st, c.default)])
        def st_(E, st, b, f): st = st.clone(); rec(E, st, 'set', b['self'], b[[k for k in b if k != 'self'][0]]); yield st, V.bool(z3.Bool('set_result'))
        for q in setq: E.contracts[q] = st_
    return env
def setup_s(c, st): c.stw = st; c.me = c.obj(st, 'element', c.cls); dflt(c, st, c.cls); trace(c, st, 'set', 2); return [c.me]
def set_to(c, st, when): E = c.E; n = cnt(E, st, 'set'); return [('set to the default, once', z3.Implies(when, z3.And(n == 1, col(E, st, 'set', 0, 0) == c.me, col(E, st, 'set', 1, 0) == c.default))), ('otherwise nothing is set', z3.Implies(z3.Not(when), n == 0))]
def post_s(none):
    def post(c, st, r):
        if isexc(r): return [('no exception (not %s)' % r.cls, False)]
        return set_to(c, st, z3.And(c.default != un(c), z3.Or(c.default != NONE, z3.BoolVal(none))))
    return post
# ---- mappings without minimum: every child
def env_m(E, c):
    env_s(C08.FULL, C_ + ':Dict.set')(E, c)
    E.contracts[C_ + ':Mapping.children'] = lambda E, st, b, f: iter([(st, c.kids)]); E.iface[c.cls + '.children'] = lambda E, st, o: iter([(st, c.kids)])
    def sd(E, st, o, args, kw): st = st.clone(); rec(E, st, 'reset', o, V.int(z3.IntVal(len(args) + len(kw)))); yield st, None
    E.icall['set_default'] = sd
def setup_m(c, st):
    setup_s(c, st); E = c.E; c.kids = c.list(st, 'children'); c.distinct(st, c.me, c.kids); c.n, c.a = E.llen(st, E.ref(c.kids)), E.larr(st, E.ref(c.kids)); j = z3.Int('j!k'); s = z3.Select(c.a, j)
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(s), V.r(s) > 0, s != c.me, s != c.kids)), s)); trace(c, st, 'reset', 2); return [c.me]
def resets(c, st, n): E = c.E; j = z3.Int('j!r'); a = lambda k: col(E, st, 'reset', k, j); return [('as many', cnt(E, st, 'reset') == n), ('each, in order', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(a(0) == z3.Select(c.a, j), a(1) == V.int(0))), a(0), z3.Select(c.a, j)))]
def inv_m(L): c, st = L.c, L.st; return [('bound', L.i <= c.n), ('nothing is set', cnt(c.E, st, 'set') == 0)] + resets(c, st, L.i)
def post_m(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    d = z3.And(c.default != un(c), c.default != NONE); return set_to(c, st, d) + [('without a default every field is reset, once: ' + n, z3.Implies(z3.Not(d), f)) for n, f in resets(c, st, c.n)] + [('with one, none is', z3.Implies(d, cnt(c.E, st, 'reset') == 0))]
# ---- sequences
def env_l(E, c):
    C06.env_set(E, c); E.iface[c.cls + '.default_value'] = lambda E, st, o: iter([(st, c.default)])
    def st_(E, st, b, f): st = st.clone(); rec(E, st, 'setall', b['self'], b['iterable']); yield st, V.bool(z3.Bool('set_result'))       # contract of set: C06
    E.contracts[C_ + ':Sequence.set'] = st_
    def sd(E, st, o, args, kw): st = st.clone(); rec(E, st, 'reset', o, V.int(z3.IntVal(len(args) + len(kw)))); yield st, None
    E.icall['set_default'] = sd
def setup_l(c, st):
    a = C06.start()(c, st); dflt(c, st, c.cls); c.k = c.sym('number_of_members', I); c.assume(st, c.default != c.me); trace(c, st, 'setall', 2); trace(c, st, 'reset', 2); trace(c, st, 'ext', 1); return a
def made(c, st, n):
    """there are n new members, each created without a value and reset once"""
    E = c.E; j, k = z3.Int('j!n'), z3.Int('k!n'); e = C06.member(c, st, j); s, s2 = C06.at(E, st, c.r, j), C06.at(E, st, c.r, k)
    return [('that many members', z3.And(E.llen(st, c.r) == n, cnt(E, st, 'reset') == n, cnt(E, st, 'new') == n)), ('each new, made without a value, and reset once', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.r(e) < 0, col(E, st, 'new', 0, j) == e, col(E, st, 'new', 1, j) == NIL, col(E, st, 'reset', 0, j) == e, col(E, st, 'reset', 1, j) == V.int(0))), s, col(E, st, 'reset', 0, j)))]
def wf_new(c, st):
    E = c.E; j = z3.Int('j!q'); s = C06.at(E, st, c.r, j); n = E.llen(st, c.r)
    return [x for x in C06.wf(c, st) if x[0] != 'the slots are different'] + [('slots are allocated in order', z3.And(FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.r(s) < 0, V.r(s) >= -st.alloc, V.r(fld(c, st, 'element', s)) >= -st.alloc)), s)))]
def fld(c, st, n, s): return C06.fld(c.E, st, n, s)
def number(c): d = c.default; return z3.If(V.is_bool(d), z3.If(V.b(d), z3.IntVal(1), z3.IntVal(0)), V.i(d))
def inv_l(L):
    E, c, st = L.E, L.c, L.st; d = number(c); j, k = z3.Int('j!d'), z3.Int('k!d'); s, s2 = C06.at(E, st, c.r, j), C06.at(E, st, c.r, k); e = C06.member(c, st, j)
    n = L.i; return [('bound', z3.Or(L.i <= d, L.i == 0)), ('only members are created', cnt(E, st, 'setall') == 0), ('all different', FA([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), z3.And(s != s2, e != s2, s != C06.member(c, st, k), e != C06.member(c, st, k))), (s, s2))), framed(c, st, 'llen', c.r)] + made(c, st, n) + wf_new(c, st)
def post_l(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; d = c.default; none = z3.Or(d == NONE, d == un(c)); num = z3.Or(V.is_int(d), V.is_bool(d)); n = z3.If(number(c) < 0, z3.IntVal(0), number(c)); ns = cnt(E, st, 'setall')
    if c.cls != LIST:
        l = cnt(E, st, 'ext'); return [('without a default it stays', z3.Implies(none, z3.And(l == 0, ns == 0, E.llen(st, c.r) == c.n, E.larr(st, c.r) == c.a))), ('with one it is emptied and filled with that', z3.Implies(z3.Not(none), z3.And(l == 1, col(E, st, 'ext', 0, 0) == d, E.llen(st, c.r) == 0)))]
    return [('without a default it stays', z3.Implies(none, z3.And(ns == 0, cnt(E, st, 'reset') == 0))), ('and so do its members', z3.Implies(none, z3.And([f for _, f in C06.untouched(c, st)]))), ('a number: ', z3.Implies(num, ns == 0))] + [('a number: ' + m, z3.Implies(num, f)) for m, f in made(c, st, n) + C06.wf(c, st)] + [('anything else is set', z3.Implies(z3.Not(z3.Or(num, none)), z3.And(ns == 1, col(E, st, 'setall', 0, 0) == c.me, col(E, st, 'setall', 1, 0) == d)))]
# ---- sparse mappings
def env_sp(E, c):
    C08.env_def(E, c)
    def fromd(E, st, o, args, kw):
        st = st.clone(); v = E.alloc(st); st.pc = st.pc + (c.inst(v, E.to_v(o)),); E.setf(st, E.ref(v), 'parent', None); rec(E, st, 'dflt', v, o, V.int(z3.IntVal(len(args) + len(kw)))); yield st, v
    E.icall['from_defaults'] = fromd
    def put(E, st, b, f):
        for s, r in C08.sput(E, st, b, f): yield s, r
    E.contracts[C_ + ':SparseDict.__setitem__'] = put
def setup_sp(c, st): a = C08.setup_def(c, st); trace(c, st, 'dflt', 3); E = c.E; E.setcomp(st, 'gv.at', E.comp(st, 'gv.at'), None); return a
def froms(c, st, i):
    """each required field among the first i holds the element its own from_defaults gave; the fields are asked in order"""
    E = c.E; k = z3.Int('k!f'); x = z3.Const('x!f', V); n = cnt(E, st, 'dflt'); a = lambda q, k: col(E, st, 'dflt', q, k); m = E.dmap(st, c.r); fn = c.fs(c.name(a(1, k)))
    w = z3.Int('w!f')
    return [('each held element came from the defaults of its field', FA(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= fn, fn < i, C08.takes(c, fn), c.S(fn) == a(1, k), z3.Select(m, c.name(a(1, k))) == a(0, k), a(2, k) == V.int(0))), a(1, k), a(0, k)))]
def inv_sp(L): E, c, st = L.E, L.c, L.st; x = z3.Const('x!sp', V); return [('count', z3.And(0 <= cnt(E, st, 'dflt'), cnt(E, st, 'dflt') == needs(c)(L.i))), ('positions', every(c, st, L.i))] + C08.inv_def(L) + froms(c, st, L.i)
def needs(c): return c.E.uf('required_among_first', I, I)
def every(c, st, i):
    E = c.E; j = z3.Int('j!e'); q = needs(c)(j); m = E.dmap(st, c.r)
    return FA(j, z3.Implies(z3.And(0 <= j, j < i, C08.takes(c, j)), z3.And(0 <= q, q < cnt(E, st, 'dflt'), col(E, st, 'dflt', 1, q) == c.S(j), z3.Select(m, c.name(c.S(j))) == col(E, st, 'dflt', 0, q))), c.S(j), needs(c)(j))
def setup_spc(c, st):
    a = setup_sp(c, st); j = z3.Int('j!nc'); f = needs(c); c.assume(st, z3.And(f(0) == 0, FA(j, z3.And(f(j + 1) == z3.If(C08.takes(c, j), f(j) + 1, f(j))), f(j + 1)), FA(j, z3.Implies(j >= 0, f(j) >= 0), f(j)))); c.needed_note = 1
    return a
def post_sp(c, st, r):
    out = C08.post_def(c, st, r)
    if isexc(r): return out
    return out + [('every required field holds what its own defaults give', z3.Implies(C08.nodefault(c), every(c, st, c.n)))]
def contracts(P):
    out = [Contract('Element.default_value', EL + '.default_value', setup_dv, post_dv, env=env_dv), Contract('Element.from_defaults', EL + '.from_defaults', setup_fd, post_fd, env=env_fd),
           Contract('Scalar.set_default', SC + '.set_default', setup_s, post_s(True), env=env_s('flatland.schema.scalars:String', SC + '.set')),
           Contract('JoinedString.set_default', JS + '.set_default', setup_s, post_s(False), env=env_s(JS, JS + '.set')),
           Contract('Mapping.set_default', C_ + ':Mapping.set_default', setup_m, post_m, env=env_m, loops=[LoopSpec('children', inv_m)])]
    def add(name, target, cls, su, po, e, loops=()):
        q = C_ + ':' + target
        def en(E, c): c.cls = cls; e(E, c); E.contracts.pop(q, None)
        out.append(Contract(name, q, su, po, env=en, loops=loops))
    add('List.set_default', 'List.set_default', LIST, setup_l, post_l, env_l, [LoopSpec('members', inv_l)])
    add('Sequence.set_default', 'Sequence.set_default', ARRAY, setup_l, post_l, env_l)
    add('SparseDict.set_default', 'SparseDict.set_default', C08.SPARSE, setup_spc, post_sp, env_sp, [LoopSpec('fields', inv_sp)])
    return out
ASSUMPTIONS = ['the contracts of set and extend (C01, C06, C09, C21)', 'resetting a member or field does not touch its container', 'calling a schema gives a fresh element of it', 'minimum_fields is None or "required"']
