"""C09: setting a mapping from pairs resets the fields, sets exactly the named ones in order, and obeys the policy."""
from common import *
C_ = 'flatland.schema.containers'
U_ = 'flatland.util.base'
def env(E, c):
    E.contracts[U_ + ':to_pairs'] = lambda E, st, b, f: iter([(st, c.pairs)])
    def reset(E, st, b, f):
        st = st.clone(); rec(E, st, 'reset', b['self'], V.int(cnt(E, st, 'set'))); E.dset(st, E.ref(b['self']), c.kept, c.child); yield st, None
    for q in ('Mapping', 'Dict', 'SparseDict'): E.contracts[C_ + ':%s._reset' % q] = reset
    E.contracts[C_ + ':Mapping.field_schema_mapping'] = lambda E, st, b, f: iter([(st, c.fields)])
    E.iface[c.cls + '.field_schema_mapping'] = lambda E, st, o: iter([(st, c.fields)])
    c.accept = E.uf('accepts', I, B)
    def setter(E, st, o, args, kw):
        st = st.clone(); n = cnt(E, st, 'set'); rec(E, st, 'set', o, args[0]); yield st, V.bool(c.accept(n))
    E.icall['set'] = setter
    def fresh(E, st, f, args, kw):           # calling a schema: a blank element of it
        st = st.clone(); rec(E, st, 'new', f); yield st, c.made(E.to_v(f))
    E.extcall = fresh; c.made = E.uf('blank_element_of', V, V)
    def put(E, st, b, f):                    # SparseDict[key] = blank element of that key's schema: kept as it is (contract of __setitem__, C08)
        st = st.clone(); E.dput(st, E.ref(b['self']), E.to_v(b['key']), b['value']); yield st, None
    E.contracts[C_ + ':SparseDict.__setitem__'] = put
    E.contracts[C_ + ':Mapping.may_contain'] = lambda E, st, b, f: iter([(st, V.bool(z3.Select(c.fd, E.to_v(b['key']))))])
def setup(cls, given):
    def f(c, st):
        E = c.E; c.me = c.dict(st, 'mapping', C_ + ':' + cls); c.r = E.ref(c.me); c.pairs = c.list(st, 'pairs'); c.fields = c.dict(st, 'fields'); c.value = c.sym('value'); c.assume(st, c.value != ABSENT); c.distinct(st, c.me, c.pairs, c.fields)
        j = z3.Int('j!'); x = z3.Const('x!', V); c.n, c.pa = E.llen(st, E.ref(c.pairs)), E.larr(st, E.ref(c.pairs)); p = lambda j: z3.Select(c.pa, j); c.k, c.v = (lambda j: V.hd(p(j))), (lambda j: V.hd(V.tl(p(j)))); c.fd, c.fm = E.dom(st, E.ref(c.fields)), E.dmap(st, E.ref(c.fields))
        E.textkeyed.append(E.ref(c.fields)); c.kept, c.child = c.sym('kept', DOM), c.sym('children', MAP)
        c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_cons(p(j)), V.is_cons(V.tl(p(j))), V.tl(V.tl(p(j))) == NIL, V.is_str(c.k(j)), c.v(j) != ABSENT)), p(j)))
        ob = lambda o: z3.And(V.is_obj(o), V.r(o) > 0, V.r(o) != c.r, V.r(o) != E.ref(c.pairs), V.r(o) != E.ref(c.fields))
        c.assume(st, z3.And(FA(x, z3.And(ob(z3.Select(c.child, x)), z3.Implies(z3.Select(c.kept, x), z3.Select(c.fd, x))), z3.Select(c.child, x), z3.Select(c.kept, x)), FA(x, ob(c.made(x)), c.made(x)), FA(x, z3.And(ob(z3.Select(c.fm, x)), z3.Implies(z3.Select(c.fd, x), V.is_str(x))), z3.Select(c.fm, x), z3.Select(c.fd, x))))
        if cls != 'SparseDict': c.assume(st, FA(x, z3.Select(c.kept, x) == z3.Select(c.fd, x), z3.Select(c.kept, x)))
        c.known = lambda j: z3.Select(c.fd, c.k(j)); c.C = E.uf('known_before', I, I); c.fs = E.uf('first_pair_of', V, I); c.fu, c.ff = c.sym('first_unknown', I), c.sym('first_refused', I); c.never = c.sym('none_refused', B)
        # definitions: how many of the first j pairs name a field; the first pair of a key; the first pair naming no field; the first refused assignment
        c.assume(st, z3.And(c.C(0) == 0, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), c.C(j + 1) == c.C(j) + z3.If(c.known(j), 1, 0)), p(j)), FA(x, z3.And(0 <= c.fs(x), c.fs(x) <= c.n, z3.Implies(c.fs(x) < c.n, c.k(c.fs(x)) == x)), c.fs(x)), FA([x, j], z3.Implies(z3.And(0 <= j, j < c.n, c.k(j) == x), c.fs(x) <= j), (c.fs(x), p(j))),
                            0 <= c.fu, c.fu <= c.n, FA(j, z3.Implies(z3.And(0 <= j, j < c.fu), c.known(j)), p(j)), z3.Implies(c.fu < c.n, z3.Not(c.known(c.fu))),
                            0 <= c.ff, FA(j, z3.Implies(z3.And(0 <= j, j < c.ff), c.accept(j)), c.accept(j)), z3.Or(z3.Not(c.accept(c.ff)), c.never), z3.Implies(c.never, FA(j, c.accept(j), c.accept(j)))))
        trace(c, st, 'reset', 2); trace(c, st, 'set', 2); trace(c, st, 'new', 1); c.pol = c.sym('schema_policy'); E.setf(st, c.r, 'policy', c.pol); c.assume(st, V.is_str(c.pol))
        if cls == 'Mapping': c.duck, c.strict, c.valid = z3.BoolVal(False), z3.BoolVal(True), z3.BoolVal(True); return [c.me, c.value]
        if given: c.given = c.sym('policy'); c.assume(st, V.is_str(c.given)); e = c.given; c.valid = z3.Or([e == sv(k) for k in ('strict', 'subset', 'duck')])
        else: e = c.pol; c.valid = z3.BoolVal(True)
        c.duck, c.strict = e == sv('duck'), e == sv('strict')
        return [c.me, c.value] + ([c.given] if given else [])
    return f
def target(c, j): return z3.If(z3.Select(c.kept, c.k(j)), z3.Select(c.child, c.k(j)), c.made(z3.Select(c.fm, c.k(j))))
def sofar(c, st, i):
    """i pairs are done: the known ones were assigned, in order, each to the field of its name"""
    E = c.E; j = z3.Int('j!s'); N = cnt(E, st, 'set'); a = lambda k, j: col(E, st, 'set', k, j)
    return [('one assignment per pair that names a field', N == c.C(i)), ('counts', FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.And(0 <= c.C(j), c.C(j) <= c.C(i), z3.Implies(c.known(j), c.C(j) < c.C(i)))), c.C(j))),
            ('in order, of its value, to the field of its name', FA(j, z3.Implies(z3.And(0 <= j, j < i, c.known(j)), z3.And(a(0, c.C(j)) == target(c, j), a(1, c.C(j)) == c.v(j))), z3.Select(c.pa, j))),
            ('reset once, before any assignment', z3.And(cnt(E, st, 'reset') == 1, col(E, st, 'reset', 0, 0) == c.me, col(E, st, 'reset', 1, 0) == V.int(0)))]
def holds(c, st, i):
    E = c.E; x = z3.Const('x!h', V); d, m = E.dom(st, c.r), E.dmap(st, c.r); new = z3.And(z3.Select(c.fd, x), c.fs(x) < i, z3.Not(z3.Select(c.kept, x)))
    return ('the fields after the reset, and those that were named', FA(x, z3.And(z3.Select(d, x) == z3.Or(z3.Select(c.kept, x), new), z3.Implies(z3.Select(c.kept, x), z3.Select(m, x) == z3.Select(c.child, x)), z3.Implies(new, z3.Select(m, x) == c.made(z3.Select(c.fm, x)))), z3.Select(d, x), z3.Select(m, x), c.fs(x)))
def inv_once(L):
    """(sparse) a field that the reset left out is created for its first pair and stays"""
    return inv(L)
def inv(L):
    E, c, st = L.E, L.c, L.st; x = z3.Const('x!i', V); sd = E.dom(st, E.ref(L.var('seen'))); cv = L.var('converted')
    return [('bound', L.i <= c.n), ('the keys seen', FA(x, z3.Select(sd, x) == z3.And(z3.Select(c.fd, x), c.fs(x) < L.i), z3.Select(sd, x))), ('no unknown key so far, unless ignored', z3.Or(c.duck, L.i <= c.fu)), ('success so far', cv == V.bool(z3.Or(c.never, c.C(L.i) <= c.ff))), ('raw', E.getf(st, c.r, 'raw') == c.value), holds(c, st, L.i)] + sofar(c, st, L.i)
def post(c, st, res):
    E = c.E; x = z3.Const('x!p', V); missing = z3.Not(FA(x, z3.Implies(z3.Select(c.fd, x), c.fs(x) < c.n), z3.Select(c.fd, x))); unknown = z3.And(c.fu < c.n, z3.Not(c.duck)); raw = [('raw', E.getf(st, c.r, 'raw') == c.value)]
    if isexc(res): return [('KeyError exactly for an unknown key, TypeError for missing ones when strict, AssertionError for no policy', z3.Or(z3.And(z3.BoolVal(res.cls == 'KeyError'), c.valid, unknown), z3.And(z3.BoolVal(res.cls == 'TypeError'), c.valid, z3.Not(unknown), c.strict, missing), z3.And(z3.BoolVal(res.cls == 'AssertionError'), z3.Not(c.valid))))] + raw
    return [('only a policy', c.valid), ('no unknown key', z3.Not(unknown)), ('no missing key', z3.Or(z3.Not(c.strict), z3.Not(missing))), ('True exactly when every assignment succeeded', E.to_v(res) == V.bool(z3.Or(c.never, c.C(c.n) <= c.ff)))] + raw + [holds(c, st, c.n)] + sofar(c, st, c.n)
# ---- the pairs of any dict-like object
def env_tp(E, c):
    names = ('iteritems', 'keys', '_asdict'); c.hasit = dict((n, c.sym('has_' + n, B)) for n in names)
    E.iface['hasattr'] = lambda E, st, o, name: iter([(st, V.bool(c.hasit[name]))]) if E.to_v(o).eq(c.o) else None
    E.icall['iteritems'] = lambda E, st, o, args, kw: iter([(st, DictIter(c.itr, 'items'))]) if o.eq(c.o) else iter([(st, DictIter(c.asr, 'items'))])
    E.icall['items'] = E.icall['iteritems']
    E.icall['keys'] = lambda E, st, o, args, kw: iter([(st, c.keys)]); E.icall['_asdict'] = lambda E, st, o, args, kw: iter([(st, c.asd)])
    c.item = E.uf('item_of', V, V)
    def get(E, st, o, i): v = c.item(E.to_v(i)); st.pc = st.pc + (v != ABSENT,); yield st, v
    E.iface['getitem'] = get
    E.iface['iter'] = lambda E, st, o: iter([(st, ListIter(E.ref(c.seq)))])
def setup_tp(c, st):
    E = c.E; c.o = c.obj(st, 'source'); c.itd, c.asd = c.dict(st, 'own_items'), c.dict(st, 'asdict'); c.itr, c.asr = E.ref(c.itd), E.ref(c.asd); c.keys, c.seq = c.list(st, 'keys'), c.list(st, 'sequence'); c.distinct(st, c.o, c.itd, c.asd, c.keys, c.seq)
    a, j, x = E.larr(st, E.ref(c.seq)), z3.Int('j!'), z3.Const('x!', V); c.sn, c.sa = E.llen(st, E.ref(c.seq)), a; e = z3.Select(a, j); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.sn), z3.And(V.is_cons(e), V.is_cons(V.tl(e)), V.tl(V.tl(e)) == NIL)), e))
    return [c.o]
def post_tp(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; r = E.ref(E.to_v(res)); n, a = E.llen(st, r), E.larr(st, r); j = z3.Int('j!p'); e = z3.Select(a, j); K = lambda l: (E.llen(st, E.ref(l)), E.larr(st, E.ref(l))); kn, ka = K(c.keys)
    pair = lambda k, v: V.cons(k, V.cons(v, NIL)); of = lambda d: FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(E.dom(c.st0, d), V.hd(e)), e == pair(V.hd(e), z3.Select(E.dmap(c.st0, d), V.hd(e))))), e)
    it, ke, asd = (c.hasit[k] for k in ('iteritems', 'keys', '_asdict'))
    return [('a mapping gives its items', z3.Implies(it, of(c.itr))), ('an object with keys gives each key with its item', z3.Implies(z3.And(z3.Not(it), ke), z3.And(n == kn, FA(j, z3.Implies(z3.And(0 <= j, j < n), e == pair(z3.Select(ka, j), c.item(z3.Select(ka, j)))), e)))),
            ('a named tuple gives its fields', z3.Implies(z3.And(z3.Not(it), z3.Not(ke), asd), of(c.asr))), ('anything else gives its own pairs in order', z3.Implies(z3.Not(z3.Or(it, ke, asd)), z3.And(n == c.sn, FA(j, z3.Implies(z3.And(0 <= j, j < n), e == z3.Select(c.sa, j)), e))))]
def setup_fs(c, st):
    E = c.E; c.me = c.obj(st, 'mapping', C_ + ':Dict'); c.fs = c.list(st, 'field_schema'); c.distinct(st, c.me, c.fs); E.setf(st, E.ref(c.me), 'field_schema', c.fs); c.n, c.a = E.llen(st, E.ref(c.fs)), E.larr(st, E.ref(c.fs)); c.name = E.uf('attr_name', I, V); j = z3.Int('j!'); e = z3.Select(c.a, j)
    pos = E.uf('position_of_field', V, I); c.pos = pos; c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(e), V.r(e) > 0, V.is_str(c.name(V.r(e))), pos(c.name(V.r(e))) == j)), e)); return [c.me, NONE]
def post_fs(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; r = E.ref(E.to_v(res)); d, m = E.dom(st, r), E.dmap(st, r); j = z3.Int('j!p'); x = z3.Const('x!p', V); e = z3.Select(c.a, j)
    return [('each field under its name', FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(z3.Select(d, c.name(V.r(e))), z3.Select(m, c.name(V.r(e))) == e)), e)), ('no other key', FA(x, z3.Implies(z3.Select(d, x), z3.And(0 <= c.pos(x), c.pos(x) < c.n, c.name(V.r(z3.Select(c.a, c.pos(x)))) == x)), z3.Select(d, x)))]
def contracts(P):
    out = [Contract('field_schema_mapping', C_ + ':Mapping.field_schema_mapping', setup_fs, post_fs, env=lambda E, c: frozen(E, 'name')), Contract('to_pairs', U_ + ':to_pairs', setup_tp, post_tp, env=env_tp, collect=True)]
    for cls, given in (('Mapping', 0), ('Dict', 0), ('Dict', 1), ('SparseDict', 1)):
        def e(E, c, cls=cls): c.cls = C_ + ':' + cls; env(E, c)
        out.append(Contract('%s.set%s' % (cls, '(policy)' if given else ''), C_ + ':%s.set' % ('Mapping' if cls == 'Mapping' else 'Dict'), setup(cls, given), post, env=e, loops=[LoopSpec('pairs', inv, kind='For', match=lambda E, st, fr, node, src: isinstance(src, z3.ExprRef))]))
    return out
ASSUMPTIONS = ['keys are text; pairs are two-item sequences', 'setting a field does not touch the mapping or its other fields (elements own their state); fields report success with a boolean', 'the contracts of _reset and SparseDict.__setitem__ (C08)']
