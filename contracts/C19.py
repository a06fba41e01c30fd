"""C19: message lookup, expansion and recording."""
from common import *
VB, SU, B_ = 'flatland.validation.base', 'flatland.schema.util', 'flatland.schema.base'
A = lambda c, st, n: c.E.comp(st, n)
def ob(v): return z3.And(V.is_obj(v), V.r(v) > 0)
# ---- add_error / add_warning: append unless already there
def setup_add(field):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'element', B_ + ':Element'); c.m = c.sym('message', S); c.log = c.list(st, 'log')
        E.setf(st, E.ref(c.me), field, c.log); c.distinct(st, c.me, c.log); c.r = E.ref(c.log); c.n, c.arr = E.llen(st, c.r), E.larr(st, c.r)
        j = z3.Int('j!'); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), V.is_str(z3.Select(c.arr, j))), z3.Select(c.arr, j)))
        E.setf(st, E.ref(c.me), {'errors': 'warnings', 'warnings': 'errors'}[field], c.list(st, 'other')); return [c.me, V.str(c.m)]
    return f
def post_add(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; n, arr = E.llen(st, c.r), E.larr(st, c.r); j = z3.Int('j!p'); m = V.str(c.m)
    there = z3.Not(FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.Select(c.arr, j) != m), z3.Select(c.arr, j)))
    return [('a new message is appended, a known one is ignored', z3.If(there, n == c.n, z3.And(n == c.n + 1, z3.Select(arr, c.n) == m))),
            ('earlier messages stay', FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.Select(arr, j) == z3.Select(c.arr, j)), z3.Select(arr, j))),
            framed(c, st, 'llen', c.r), framed(c, st, 'lel', c.r)]
# ---- note_error / note_warning
def env_note(E, c):
    c.key = lambda k: E.uf('own_attribute', V, V)(k); c.exp = E.uf('expanded', V, V)
    E.iface['getattr'] = lambda E, st, a: iter([(st, c.key(E.to_v(a[1])))]) if E.implied(st, E.to_v(a[0]) == c.me) else None
    def expand(E, st, b, f):
        st = st.clone(); rec(E, st, 'exp', b['element'], b['state'], b['message'], E.dget(st, E.ref(E.to_v(b['extra_format_args'])), sv('n'))); yield st, c.exp(E.to_v(b['message']))
    E.contracts[VB + ':Validator.expand_message'] = expand
    for k in ('error', 'warning'):
        def h(E, st, o, args, kw, k=k):
            st = st.clone(); rec(E, st, 'add', o, args[0], V.str(z3.StringVal(k))); yield st, None
        E.icall['add_' + k] = h
def setup_note(c, st):
    E = c.E; c.me = c.obj(st, 'validator', VB + ':Validator'); c.el = c.obj(st, 'element'); c.state = c.sym('state'); c.k = c.sym('key'); c.m = c.sym('message'); c.info = c.sym('info')
    trace(c, st, 'exp', 4); trace(c, st, 'add', 3); c.distinct(st, c.me, c.el)
    c.assume(st, z3.And(c.info != ABSENT, z3.Or(V.is_str(c.k), c.k == NONE)))
    return [c.me, c.el, c.state, c.k, c.m], {'n': c.info}
def post_note(kind):
    def post(c, st, res):
        if isexc(res): return [('no exception', False)]
        E = c.E; msg = z3.If(T(E, st, c.m), c.m, c.key(c.k)); some = T(E, st, msg); x = lambda k: col(E, st, 'exp', k, 0); a = lambda k: col(E, st, 'add', k, 0)
        return [('always False', E.to_v(res) == FALSE), ('the explicit message or the validator\'s own; recorded once on the element, nothing without a message',
                 z3.If(some, z3.And(cnt(E, st, 'add') == 1, cnt(E, st, 'exp') == 1, x(0) == c.el, x(1) == c.state, x(2) == msg, x(3) == c.info, a(0) == c.el, a(1) == c.exp(msg), a(2) == V.str(z3.StringVal(kind))), cnt(E, st, 'add') == 0))]
    return post
# ---- as_format_mapping: the first target that offers the name
def env_map(E, c):
    c.hi, c.it, c.ha, c.at = E.uf('has_item', V, V, B), E.uf('item', V, V, V), E.uf('has_attr', V, V, B), E.uf('attr', V, V, V)
    c.subs = E.uf('subscriptable', V, B)
    def hasattr_(E, st, o, name):
        if isinstance(name, str) and name == '__getitem__': return iter([(st, V.bool(c.subs(E.to_v(o))))])
        return iter([(st, V.bool(c.ha(E.to_v(o), E.to_v(name))))]) if E.classof(st, E.to_v(o)) is None else None
    E.iface['hasattr'] = hasattr_
    def get(E, st, o, i):
        o, i = E.to_v(o), E.to_v(i)
        for s, b in E.split(st, z3.And(c.subs(o), c.hi(o, i))):
            if b: yield s, c.it(o, i)
            else:
                for e in ('KeyError', 'IndexError', 'TypeError'): yield s, Exc(e)
    E.iface['getitem'] = get
    def ga(E, st, a):
        o, i = E.to_v(a[0]), E.to_v(a[1])
        if E.classof(st, o): return None
        def g():
            for s, b in E.split(st, c.ha(o, i)): yield s, (c.at(o, i) if b else Exc('AttributeError'))
        return g()
    E.iface['getattr'] = ga
    c.tf = E.uf('translated', V, V, V)
    E.extcall = lambda E, st, f, args, kw: iter([(st, c.tf(E.to_v(f), E.to_v(args[0])))])
def setup_map(c, st):
    E = c.E; c.me = c.obj(st, 'mapping', VB + ':as_format_mapping'); c.k = V.str(c.sym('name', S)); c.ts = c.list(st, 'targets'); c.distinct(st, c.me, c.ts); r = E.ref(c.me)
    E.setf(st, r, 'targets', c.ts); c.tr = c.sym('transform'); E.setf(st, r, 'transform', c.tr); c.assume(st, z3.Or(c.tr == NONE, ob(c.tr)))
    c.n, c.a = E.llen(st, E.ref(c.ts)), E.larr(st, E.ref(c.ts)); j = z3.Int('j!')
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), ob(z3.Select(c.a, j))), z3.Select(c.a, j)))
    c.off = lambda t: z3.Or(z3.And(c.subs(t), c.hi(t, c.k)), c.ha(t, c.k)); c.val = lambda t: z3.If(z3.And(c.subs(t), c.hi(t, c.k)), c.it(t, c.k), c.at(t, c.k))
    first(c, st, c.off, c.a, c.n); c.assume(st, c.val(z3.Select(c.a, c.f)) != ABSENT)
    return [c.me, c.k]
def first(c, st, pred, arr, n):
    """c.f: the first index that satisfies pred, n if there is none"""
    c.f = c.sym('first', I); j = z3.Int('j!'); c.assume(st, z3.And(0 <= c.f, c.f <= n, z3.Implies(c.f < n, pred(z3.Select(arr, c.f))), FA(j, z3.Implies(z3.And(0 <= j, j < c.f), z3.Not(pred(z3.Select(arr, j)))), z3.Select(arr, j))))
def inv_first(L): return [('none before', L.i <= L.c.f)]
def post_map(c, st, res):
    if isexc(res): return [('KeyError only when nobody offers it', z3.And(z3.BoolVal(res.cls == 'KeyError'), c.f == c.n))]
    E = c.E; v = c.val(z3.Select(c.a, c.f))
    return [('somebody offers it', c.f < c.n), ('the item, else the attribute, of the first target that has it; translated if there is a translator', E.to_v(res) == z3.If(T(E, st, c.tr), c.tf(c.tr, v), v))]
# ---- expand_message
def env_exp(E, c):
    c.mhas, c.mval = E.uf('map_offers', V, B), E.uf('map_value', V, V)
    c.one, c.many = E.uf('says', V, V, S), E.uf('says_plural', V, V, V, V, S)
    def find(E, st, b, f):
        k = E.to_v(b['type']); n = z3.simplify(V.s(k)).as_string()
        yield st, {'ugettext': c.ut, 'ungettext': c.unt}[n]
    E.contracts[VB + ':Validator.find_transformer'] = find
    def init(E, st, b, f):
        st = st.clone(); ts = E.from_v(b['targets']); ts = [E.to_v(x) for x in ts.items]
        rec(E, st, 'map', b['self'], V.int(len(ts)), *ts[:4], E.dget(st, E.ref(E.to_v(b['kw'])), sv('transform'))); yield st, None
    E.contracts[VB + ':as_format_mapping.__init__'] = init
    def get(E, st, b, f):
        k = E.to_v(b['item'])
        for s, t in E.split(st, c.mhas(k)): yield s, (c.mval(k) if t else Exc('KeyError'))
    E.contracts[VB + ':as_format_mapping.__getitem__'] = get
    def call(E, st, f, args, kw):
        a = [E.to_v(x) for x in args]
        for s, t in E.split(st, z3.And(c.called, f == c.msg)):
            if t: s = s.clone(); rec(E, s, 'callm', *a); yield s, c.m0; continue
            if len(a) == 1: yield s, V.str(c.one(f, a[0]))
            elif len(a) == 3: yield s, V.str(c.many(f, *a))
            else: yield s, Exc('TypeError')
    E.extcall = call
def setup_exp(shape, is_call):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'validator', VB + ':Validator'); c.el = c.obj(st, 'element'); c.state = c.sym('state'); c.extra = c.sym('extra')
        for n in ('ut', 'unt'): setattr(c, n, c.sym(n)); c.assume(st, z3.Or(getattr(c, n) == NONE, ob(getattr(c, n))))
        trace(c, st, 'map', 7); trace(c, st, 'callm', 2)
        if shape == 'text': c.m0 = V.str(c.sym('text', S))
        else:
            c.si, c.pl, c.key = V.str(c.sym('single', S)), V.str(c.sym('plural', S)), c.sym('n_key'); c.m0 = V.cons(c.si, V.cons(c.pl, V.cons(c.key, NIL)))
            x = c.mval(c.key); c.assume(st, z3.And(z3.Or(V.is_int(x), ob(x), x == NONE), z3.Or(V.is_str(c.key), V.is_int(c.key)), E.uf('truthy_obj', I, B)(0) == E.uf('truthy_obj', I, B)(0)))
        c.called = z3.BoolVal(is_call); c.msg = c.obj(st, 'message') if is_call else c.m0
        if is_call: c.assume(st, z3.And(E.uf('callable', V, B)(c.msg), c.msg != c.ut, c.msg != c.unt))
        for t in (c.ut, c.unt): c.assume(st, z3.Implies(ob(t), T(E, st, t)))       # functions are true
        return [c.me, c.el, c.state, c.msg], {'n': c.extra}
    return f
def post_exp(shape, is_call):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        E = c.E; x = lambda k: col(E, st, 'map', k, 0); t = lambda m: z3.If(c.ut == NONE, V.s(m), c.one(c.ut, m))
        out = [('one mapping view: extra arguments, state, validator, element, through the translator', z3.And(cnt(E, st, 'map') == 1, x(1) == V.int(4), E.dget(st, V.r(x(2)), sv('n')) == c.extra, x(3) == c.state, x(4) == c.me, x(5) == c.el, x(6) == c.ut))]
        if is_call: out.append(('the message is called once with element and state', z3.And(cnt(E, st, 'callm') == 1, col(E, st, 'callm', 0, 0) == c.el, col(E, st, 'callm', 1, 0) == c.state)))
        else: out.append(('nothing else is called', cnt(E, st, 'callm') == 0))
        if shape == 'text': m = t(c.m0)
        else:
            v = c.mval(c.key); iok, iof = E.uf('int_ok', V, B), E.uf('int_of', V, I)
            n = z3.If(c.mhas(c.key), z3.If(z3.And(z3.Not(V.is_int(v)), iok(v)), V.int(iof(v)), v), c.key)
            m = z3.If(c.unt != NONE, c.many(c.unt, c.si, c.pl, n), z3.If(E.eq(st, n, iv(1)), t(c.si), t(c.pl)))
        return out + [('the chosen text with its names filled in from the mapping', E.to_v(res) == V.str(E.uf('fmt', S, V, S)(m, x(0))))]
    return post
# ---- translators: the nearest ancestor that has a true one, then the builtins
def env_anc(E, c):
    c.par = E.uf('parents_of', V, AV); c.np = E.uf('n_parents', V, I)
    E.iface['parents'] = lambda E, st, o: iter([(st, SeqVal(c.np(E.to_v(o)), c.par(E.to_v(o))))])
    c.has, c.val = E.uf('has_it', V, B), E.uf('its', V, V)
    def call(E, st, f, args, kw):
        a = E.to_v(args[0])
        for s, b in E.split(st, c.has(a)): yield s, (c.val(a) if b else Exc('AttributeError'))
    E.extcall = call
def setup_anc(c, st):
    E = c.E; c.el = c.obj(st, 'element'); c.p = c.obj(st, 'predicate'); c.n = c.np(c.el); arr = c.par(c.el); j = z3.Int('j!')
    c.assume(st, z3.And(c.n >= 0, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), ob(z3.Select(arr, j))), z3.Select(arr, j))))
    c.line = lambda j: z3.If(j == 0, c.el, z3.Select(arr, j - 1)); c.good = lambda v: z3.And(c.has(v), T(E, st, c.val(v)))
    v = z3.Const('v!', V); c.assume(st, FA(v, z3.And(c.val(v) != ABSENT, z3.Implies(V.is_obj(c.val(v)), V.r(c.val(v)) > 0)), c.val(v)))
    c.self_ = c.good(c.el); first(c, st, c.good, arr, c.n); c.arr = arr
    return [c.el, c.p]
def inv_anc(L): return [('none before', z3.And(z3.Not(L.c.self_), L.i <= L.c.f))]
def post_anc(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return [('the first true answer along element, parent, ... root; None when there is none', c.E.to_v(res) == z3.If(c.self_, c.val(c.el), z3.If(c.f < c.n, c.val(z3.Select(c.arr, c.f)), NONE)))]
# ---- where translators come from
def env_ft(E, c):
    env_map(E, c)
    c.anc = lambda n: E.uf('nearest_' + n, V, V)
    def find(E, st, b, f):
        g = E.from_v(b['finder']); n = [k for k in ('ungettext', 'ugettext') if k in getattr(g, 'name', '')]
        if not n: raise Unsupported('finder %r' % g)
        yield st, c.anc(n[0])(E.to_v(b['element']))
    E.contracts[SU + ':find_i18n_function'] = find
def setup_ft(n):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'validator', VB + ':Validator'); c.el = c.obj(st, 'element'); c.state = c.sym('state'); c.assume(st, z3.Or(c.state == NONE, ob(c.state)))
        k = sv(n); x = c.state; c.assume(st, z3.And(c.it(x, k) != ABSENT, c.at(x, k) != ABSENT))
        return [c.me, sv(n), c.el, c.state, c.sym('message')]
    return f
def post_ft(n):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        x, k = c.state, sv(n)
        return [('the attribute or item of the state, else the nearest ancestor\'s or the builtin one', c.E.to_v(res) == z3.If(c.ha(x, k), c.at(x, k), z3.If(z3.And(c.subs(x), c.hi(x, k)), c.it(x, k), c.anc(n)(c.el))))]
    return post
def env_fi(E, c):
    c.srch = E.uf('search', V, V, V)
    E.contracts[SU + ':search_ancestry'] = lambda E, st, b, f: iter([(st, c.srch(E.to_v(b['element']), E.to_v(b['predicate'])))])
    c.bok, c.bval = E.uf('builtin_offers', V, B), E.uf('builtin_value', V, V)
    def call(E, st, f, args, kw):
        if not isinstance(args[0], Mod): raise Unsupported('finder applied to %r' % (args[0],))
        for s, b in E.split(st, c.bok(f)): yield s, (c.bval(f) if b else Exc('AttributeError'))
    E.extcall = call
def setup_fi(c, st): c.el = c.obj(st, 'element'); c.p = c.obj(st, 'finder'); c.assume(st, z3.And(c.srch(c.el, c.p) != ABSENT, c.bval(c.p) != ABSENT)); return [c.el, c.p]
def post_fi(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    s = c.srch(c.el, c.p)
    return [('the ancestry first, then the builtins, then none', c.E.to_v(res) == z3.If(T(c.E, st, s), s, z3.If(c.bok(c.p), c.bval(c.p), NONE)))]
def contracts(P):
    return [Contract('add_' + k[:-1], B_ + ':Element.add_' + k[:-1], setup_add(k), post_add) for k in ('errors', 'warnings')] + [
        Contract('note_error', VB + ':Validator.note_error', setup_note, post_note('error'), env=env_note),
        Contract('note_warning', VB + ':Validator.note_warning', setup_note, post_note('warning'), env=env_note),
        Contract('as_format_mapping.__getitem__', VB + ':as_format_mapping.__getitem__', setup_map, post_map, env=env_map, loops=[LoopSpec('targets', inv_first, kind='For')]),
        Contract('search_ancestry', SU + ':search_ancestry', setup_anc, post_anc, env=env_anc, loops=[LoopSpec('ancestors', inv_anc, kind='For')]),
        Contract('find_i18n_function', SU + ':find_i18n_function', setup_fi, post_fi, env=env_fi),
    ] + [Contract('find_transformer(%s)' % n, VB + ':Validator.find_transformer', setup_ft(n), post_ft(n), env=env_ft) for n in ('ugettext', 'ungettext')] + [Contract('expand_message (%s%s)' % (k, ', callable' if q else ''), VB + ':Validator.expand_message', setup_exp(k, q), post_exp(k, q), env=env_exp) for k in ('text', 'plural') for q in (False, True)]
ASSUMPTIONS = []
