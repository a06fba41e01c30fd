"""C21: a compound presents what its parts spell and hands its parts what it is set to; a joined string its members' texts."""
from common import *
import C06
K_, S_ = 'flatland.schema.compound', 'flatland.schema.scalars'
COMP, DATE, JS = K_ + ':Compound', K_ + ':DateYYYYMMDD', K_ + ':JoinedString'
def noexc(r, out): return [('no exception (not %s)' % r.cls, False)] if isexc(r) else out
STOP = ('SystemExit', 'KeyboardInterrupt', 'NotImplementedError')
# ---- Compound: u, value, set over compose and explode
def env_c(E, c):
    def compose(E, st, o, args, kw): st = st.clone(); rec(E, st, 'compose', o, V.int(z3.IntVal(len(args) + len(kw)))); yield st, Tup([c.t, c.v])
    def explode(E, st, o, args, kw):
        st = st.clone(); rec(E, st, 'explode', o, args[0], V.int(z3.IntVal(len(args) + len(kw))))
        yield st.clone(), c.res
        if c.fails:
            st = st.clone(); rec(E, st, 'failed', o)
            for x in STOP + ('AdaptationError', 'TypeError', 'ValueError', 'AttributeError', 'KeyError', 'Exception'): yield st.clone(), Exc(x)
    E.icall['compose'], E.icall['explode'] = compose, explode
def setup_c(c, st, fails=False):
    c.me = c.obj(st, 'compound'); c.t, c.v, c.res, c.x = c.sym('composed_text'), c.sym('composed_value'), c.sym('explode_result'), c.sym('input'); c.fails = fails
    c.assume(st, z3.And([x != ABSENT for x in (c.t, c.v, c.res, c.x)])); trace(c, st, 'compose', 2); trace(c, st, 'explode', 3); trace(c, st, 'failed', 1); return [c.me]
def post_get(which):
    def f(c, st, r):
        E = c.E; return noexc(r, [] if isexc(r) else [('composed once', z3.And(cnt(E, st, 'compose') == 1, col(E, st, 'compose', 0, 0) == c.me, col(E, st, 'compose', 1, 0) == V.int(0))), ('the %s of what the parts spell' % which, E.to_v(r) == (c.t if which == 'text' else c.v)), ('nothing is assigned', cnt(E, st, 'explode') == 0)])
    return f
def exploded(c, st): E = c.E; return ('the parts are handed the value, once', z3.And(cnt(E, st, 'explode') == 1, col(E, st, 'explode', 0, 0) == c.me, col(E, st, 'explode', 1, 0) == c.x, col(E, st, 'explode', 2, 0) == V.int(1)))
def post_put(c, st, r): return noexc(r, [exploded(c, st)])
def post_cset(c, st, r):
    E = c.E
    if isexc(r): return [('only a request to stop or a missing explode gets out (not %s)' % r.cls, z3.BoolVal(r.cls in STOP)), exploded(c, st)]
    v = E.to_v(r); return [exploded(c, st), ('the answer of explode, True for none, False when it failed', v == z3.If(cnt(E, st, 'failed') > 0, FALSE, z3.If(c.res == NONE, TRUE, c.res)))]
# ---- the date compound
ATTRS = ('year', 'month', 'day')
def env_d(E, c):
    frozen(E, *ATTRS)
    def nm(E, st, o): yield st, c.name(E.ref(o))
    E.iface['name'] = nm
    c.name = E.uf('attr_name', I, V); c.ok, c.ad = E.uf('date_adapts', V, B), E.uf('date_adapted', V, V)
    def adapt(E, st, b, f):
        x = E.to_v([b[k] for k in b if k != 'self'][0]); st = st.clone(); rec(E, st, 'adapt', b['self'], x)
        st.pc = st.pc + (z3.Or(c.ad(x) == NONE, z3.And(V.is_obj(c.ad(x)), V.r(c.ad(x)) > 0)),)
        for s, k in E.split(st, c.ok(x)): yield s, (c.ad(x) if k else Exc('AdaptationError'))
    for q in ('Temporal.adapt', 'Date.adapt'): E.contracts[S_ + ':' + q] = adapt
    def setter(E, st, o, args, kw): st = st.clone(); rec(E, st, 'set', o, args[0], V.int(z3.IntVal(len(args) + len(kw)))); yield st, V.bool(E.uf('accepts', I, B)(cnt(E, st, 'set')))
    E.icall['set'] = setter
    c.val = E.uf('native_value', I, V)
    def value(E, st, o): v = c.val(E.ref(o)); st.pc = st.pc + (v != ABSENT,); yield st, v
    E.iface['value'] = value
    c.spell = E.uf('format_parts', V, V, V, V, S); c.speaks = E.uf('parts_format', V, V, V, V, B)
    def fmt(E, st, a, b, fr):
        r = E.ref(b); d, m = E.dom(st, r), E.dmap(st, r); k = [V.str(z3.StringVal(x)) for x in ATTRS]
        E.oblige(st, 'formatted: a dictionary of the three parts', z3.And([z3.Select(d, x) for x in k]), 'post'); ps = [z3.Select(m, x) for x in k]; rec(E, st, 'fmt', a)
        for s, y in E.split(st, c.speaks(E.to_v(a), *ps)): yield s, (V.str(c.spell(E.to_v(a), *ps)) if y else Exc('TypeError'))
    E.ext['format'] = fmt
def setup_d(c, st):
    E = c.E; c.me = c.dict(st, 'date', DATE); c.fields = c.list(st, 'field_schema'); c.x = c.sym('input'); c.assume(st, c.x != ABSENT); c.distinct(st, c.me, c.fields); r = E.ref(c.me)
    c.S = [c.obj(st, 'schema%d' % k) for k in range(3)]; c.C = [c.obj(st, 'part%d' % k) for k in range(3)]; c.distinct(st, c.me, c.fields, *c.S + c.C)
    for k in range(3): c.assume(st, V.is_str(c.name(E.ref(c.S[k]))))
    a = z3.K(I, ABSENT)
    for k in range(3): a = z3.Store(a, k, c.S[k])
    E.lset(st, E.ref(c.fields), z3.IntVal(3), a)
    E.textkeyed.append(r); N = [c.name(E.ref(s)) for s in c.S]; c.assume(st, z3.Distinct(*N))
    for k in range(3): c.assume(st, z3.And(z3.Select(E.dom(st, r), N[k]), z3.Select(E.dmap(st, r), N[k]) == c.C[k]))
    E.setf(st, r, 'field_schema', c.fields); c.f = c.sym('date_format'); c.assume(st, V.is_str(c.f)); E.setf(st, r, 'format', c.f); pin(c, st, c.me, DATE, 'used')
    for t, n in (('adapt', 2), ('set', 3), ('fmt', 1)): trace(c, st, t, n)
    return [c.me, c.x]
def sets(c, st, vals): E = c.E; return z3.And([cnt(E, st, 'set') == 3] + [z3.And(col(E, st, 'set', 0, k) == c.C[k], col(E, st, 'set', 1, k) == vals[k], col(E, st, 'set', 2, k) == V.int(1)) for k in range(3)])
def post_ex(c, st, r):
    E = c.E; d = c.ad(c.x); good = z3.And(c.ok(c.x), d != NONE)
    return noexc(r, [] if isexc(r) else [('a date is handed out part by part', z3.Implies(good, sets(c, st, [E.uf('attr_' + a, I, V)(V.r(d)) for a in ATTRS]))), ('anything else blanks the parts', z3.Implies(z3.Not(good), sets(c, st, [NONE] * 3))), ('what it returns counts as success', E.to_v(r) == NONE)])
def post_co(c, st, r):
    if isexc(r): return noexc(r, [])
    E = c.E; ps = [c.val(E.ref(x)) for x in c.C]; t = V.str(c.spell(c.f, *ps)); good = z3.And(c.speaks(c.f, *ps), c.ok(t)); v = E.from_v(r)
    if not isinstance(v, Tup) or len(v.items) != 2: return [('a pair', False)]
    a, b = [E.to_v(x) for x in v.items]; return [('parts that spell a date give its text and value', z3.Implies(good, z3.And(a == t, b == c.ad(t)))), ('others give empty text and no value', z3.Implies(z3.Not(good), z3.And(a == V.str(z3.StringVal('')), b == NONE))), ('no part is set', cnt(E, st, 'set') == 0)]
# ---- the joined string
PAT = K_ + ':separator pattern'
def world_j(c, st):
    E = c.E; c.me = c.list(st, 'joined', JS); c.r = E.ref(c.me); c.n, c.a = E.llen(st, c.r), E.larr(st, c.r); c.schema = c.sym('member_schema'); E.setf(st, c.r, 'member_schema', c.schema); c.assume(st, z3.And(V.is_sym(c.schema), E.truth(st, c.schema)))
    c.prune = c.sym('prune', B); E.setf(st, c.r, 'prune_empty', V.bool(c.prune)); c.sep = c.sym('separator', S); E.setf(st, c.r, 'separator', V.str(c.sep))
def env_j(kind):
    def f(E, c):
        def create(E, st, f, args, kw):
            if args or kw or not E.to_v(f).eq(c.schema): raise Unsupported('call of something else')
            st = st.clone(); v = E.alloc(st); st.pc = st.pc + (C06.is_el(E, v),); E.setf(st, E.ref(v), 'parent', None); rec(E, st, 'new', v); yield st, v
        E.extcall = create
        def setter(E, st, o, args, kw): st = st.clone(); n = cnt(E, st, 'set'); rec(E, st, 'set', o, args[0], V.int(z3.IntVal(len(args) + len(kw)))); yield st, V.bool(E.uf('accepts', I, B)(n))
        E.icall['set'] = setter
        def add(E, st, b, f):               # contract of append, for a new element (C06)
            v = E.to_v([b[k] for k in b if k != 'self'][0]); st = st.clone(); E.oblige(st, 'a new element is appended', z3.And(C06.is_el(E, v), V.r(v) < 0), 'pre'); n, a = E.llen(st, c.r), E.larr(st, c.r); E.lset(st, c.r, z3.simplify(n + 1), z3.Store(a, n, v)); yield st, None
        E.contracts[C06.C_ + ':Sequence.append'] = E.contracts[C06.C_ + ':Array.append'] = add
        def pieces(E, st, o, args, kw):
            s = st.clone(); rec(E, s, 'split', o, args[0] if args else NIL, V.int(z3.IntVal(len(args) + len(kw)))); yield s, E.newlist_sym(s, c.vn, c.va)
        E.ext['str.split'] = pieces
        E.icall['split'] = pieces
    return f
def setup_j(kind):
    def f(c, st):
        world_j(c, st); E = c.E; x = z3.Const('x', V); c.text = c.sym('text', S)
        if kind == 'values': c.vals = c.list(st, 'values'); c.distinct(st, c.me, c.vals); c.vn, c.va = E.llen(st, E.ref(c.vals)), E.larr(st, E.ref(c.vals)); arg = c.vals
        else: c.vn, c.va = c.sym('number_of_pieces', I), z3.Const('in_pieces', AV); c.assume(st, c.vn >= 0); arg = V.str(c.text)
        j = z3.Int('j!v'); v = z3.Select(c.va, j); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.vn), z3.And(v != ABSENT, v != c.me, z3.Implies(V.is_obj(v), V.r(v) > 0)) if kind == 'values' else V.is_str(v)), v))
        c.pat = c.obj(st, 'separator_regex') if kind == 'pattern' else NONE; E.setf(st, c.r, 'separator_regex', c.pat)
        if kind == 'pattern': c.assume(st, T(E, st, c.pat)); c.distinct(st, c.me, c.pat)
        blank = (lambda v: z3.Not(T(E, st, v))) if kind == 'values' else (lambda v: v == V.str(z3.StringVal('')))
        import C22
        c.R, c.A = C22.filtered(c, st, 'kept', lambda i: z3.Select(c.va, i), lambda v: z3.Not(z3.And(c.prune, blank(v))), lambda v: v, c.vn)
        for t, n in (('new', 1), ('set', 3), ('split', 3)): trace(c, st, t, n)
        return [c.me, arg]
    return f
def built(c, st, n):
    """the members are n new elements, each set once, to the kept values in order"""
    E = c.E; j = z3.Int('j!b'); e = C06.at(E, st, c.r, j); a = lambda k: col(E, st, 'set', k, j)
    return [('as many members as values kept', z3.And(E.llen(st, c.r) == n, cnt(E, st, 'set') == n)), ('each a new element', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.is_obj(e), V.r(e) < 0, V.r(e) >= -st.alloc)), e)), ('set once', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(a(0) == e, a(2) == V.int(1))), e, a(0))), ('to the values, in order', FA(j, z3.Implies(z3.And(0 <= j, j < n), a(1) == z3.Select(c.A, j)), a(1), z3.Select(c.A, j)))]
def was_split(c, st, kind):
    E = c.E
    if kind == 'values': return ('nothing is split', cnt(E, st, 'split') == 0)
    o, a = (c.pat, V.str(c.text)) if kind == 'pattern' else (V.str(c.text), V.str(c.sep)); return ('the text is split once, by the %s' % ('pattern' if kind == 'pattern' else 'separator'), z3.And(cnt(E, st, 'split') == 1, col(E, st, 'split', 0, 0) == o, col(E, st, 'split', 1, 0) == a, col(E, st, 'split', 2, 0) == V.int(1)))
def inv_j(kind):
    def inv(L):
        E, c, st = L.E, L.c, L.st; r = E.ref(L.var('success')); j = z3.Int('j!s'); x = z3.Select(E.larr(st, r), j); n = c.R(L.i)
        return [('bound', z3.And(L.i <= c.vn, 0 <= n)), ('so far', E.llen(st, r) == n), ('the answers so far', FA(j, z3.Implies(z3.And(0 <= j, j < n), x == V.bool(E.uf('accepts', I, B)(j))), x, E.uf('accepts', I, B)(j))), was_split(c, st, kind), framed(c, st, 'llen', c.r), framed(c, st, 'lel', c.r)] + built(c, st, n)
    return inv
def post_j(kind):
    def post(c, st, r):
        if isexc(r): return noexc(r, [])
        E = c.E; j = z3.Int('j!p'); ok = E.uf('accepts', I, B); n = c.R(c.vn); t = T(E, st, r)
        return [was_split(c, st, kind)] + built(c, st, n) + [('success only when every part is accepted', z3.Implies(t, FA(j, z3.Implies(z3.And(0 <= j, j < n), ok(j)), ok(j)))), ('and then always', z3.Implies(z3.Not(t), z3.Not(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), ok(j))))))]
    return post
def env_jv(E, c):
    c.u = E.uf('text_of', I, V)
    def u(E, st, o): v = c.u(E.ref(o)); st.pc = st.pc + (V.is_str(v),); yield st, v
    E.iface['u'] = u
    def join(E, st, o, args, kw):
        for s, n, a in E.seqarg(st, args[0], None):
            if isinstance(n, Exc): yield s, n; continue
            s = s.clone(); c.jn, c.ja = n, a; rec(E, s, 'join', o); E.setcomp(s, 'gn.jn', n, None); E.setcomp(s, 'tr.jn.0', a, None); yield s, V.str(E.uf('strjoin', S, I, AV, S)(E.strof(o), n, a))
    E.ext['str.join'] = join
def setup_jv(c, st):
    world_j(c, st); E = c.E; j = z3.Int('j!m'); e = z3.Select(c.a, j); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(e), V.r(e) > 0, e != c.me)), e)); E.comp(st, 'gn.jn'); E.comp(st, 'tr.jn.0'); trace(c, st, 'join', 1); return [c.me]
def texts(c, st, a, n): E = c.E; j = z3.Int('j!t'); return FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(a, j) == c.u(V.r(z3.Select(c.a, j)))), z3.Select(a, j), z3.Select(c.a, j))
def inv_jv(L): E, c, st = L.E, L.c, L.st; return [('bound', L.i <= c.n), ('count', E.llen(st, L.out) == L.i), ('the texts so far', texts(c, st, E.larr(st, L.out), L.i))]
def post_jv(c, st, r):
    if isexc(r): return noexc(r, [])
    E = c.E; n, a = E.comp(st, 'gn.jn'), E.comp(st, 'tr.jn.0'); return [('one join', z3.And(cnt(E, st, 'join') == 1, E.to_v(r) == V.str(E.uf('strjoin', S, I, AV, S)(c.sep, n, a)))), ('of the texts of all members', n == c.n), ('in order', texts(c, st, a, c.n)), framed(c, st, 'llen'), framed(c, st, 'lel')]
# ---- the fields of a date schema
def env_i(E, c):
    def named(E, st, o, args, kw): s = st.clone(); v = E.alloc(s); E.setf(s, E.ref(v), 'g!name', E.to_v(args[0])); E.setf(s, E.ref(v), 'g!of', E.to_v(o)); yield s, v
    def using(E, st, o, args, kw):
        if args: raise Unsupported('using')
        s = st.clone(); v = E.alloc(s); r = E.ref(v); q = E.ref(o)
        for n in ('g!name', 'g!of'): E.setf(s, r, n, E.getf(s, q, n))
        for n in ('optional', 'format'): E.setf(s, r, 'g!' + n, E.to_v(kw[n]) if n in kw else NIL)
        yield s, v
    E.icall['named'], E.icall['using'] = named, using
    fields(E, 'field_schema', 'optional')
    def setat(E, st, o, n, v): s = st.clone(); E.setf(s, E.ref(o), n, E.to_v(v)); rec(E, s, 'wrote', o, V.str(z3.StringVal(n))); yield s, None
    E.iface['setattr'] = setat
    def cname(E, st, b, f): return named(E, st, b['cls'], [b['name']], {})
    E.contracts['flatland.schema.base:Element.named'] = cname      # contract of named on the integer type: C13
def setup_i(k):
    def f(c, st):
        E = c.E; c.cls = c.obj(st, 'schema'); c.fs = c.list(st, 'given'); c.distinct(st, c.cls, c.fs); a = z3.K(I, ABSENT); c.given = [c.sym('field%d' % i) for i in range(k)]
        for i in range(k): a = z3.Store(a, i, c.given[i]); c.assume(st, z3.And(V.is_obj(c.given[i]), V.r(c.given[i]) > 0))
        E.lset(st, E.ref(c.fs), z3.IntVal(k), a); c.opt = c.sym('optional'); c.assume(st, c.opt != ABSENT); E.setf(st, E.ref(c.cls), 'field_schema', c.fs); E.setf(st, E.ref(c.cls), 'optional', c.opt)
        for n in ('g!name', 'g!of', 'g!optional', 'g!format'): E.comp(st, 'f.' + n)
        trace(c, st, 'wrote', 2); return [c.cls]
    return f
def post_i(k):
    def f(c, st, r):
        if isexc(r): return noexc(r, [])
        E = c.E; l = E.ref(E.getf(st, E.ref(c.cls), 'field_schema')); a = E.larr(st, l); g = lambda n, i: E.getf(st, V.r(z3.Select(a, i)), 'g!' + n)
        out = [('three fields', E.llen(st, l) == 3), ('the given ones first', z3.And([z3.BoolVal(True)] + [z3.Select(a, i) == c.given[i] for i in range(k)])), ('the list given is left alone', z3.And(E.llen(st, E.ref(c.fs)) == k, E.larr(st, E.ref(c.fs)) == E.larr(c.st0, E.ref(c.fs))))]
        I_ = E.to_v(Cls(S_ + ':Integer'))
        for i in range(k, 3): out += [('%s is added as an integer field' % ATTRS[i], z3.And(g('name', i) == V.str(z3.StringVal(ATTRS[i])), g('of', i) == I_)), ('%s: as optional as the date, and zero padded' % ATTRS[i], z3.And(g('optional', i) == c.opt, g('format', i) == V.str(z3.StringVal('%04i' if i == 0 else '%02i'))))]
        return out
    return f
def contracts(P):
    f = lambda fails, more: (lambda c, st: setup_c(c, st, fails) + ([c.x] if more else []))
    out = [Contract('Compound.u', COMP + '.u', f(0, 0), post_get('text'), env=env_c), Contract('Compound.value', COMP + '.value', f(0, 0), post_get('value'), env=env_c),
           Contract('Compound.u = text', COMP + '.u/fset', f(0, 1), post_put, env=env_c), Contract('Compound.value = value', COMP + '.value/fset', f(0, 1), post_put, env=env_c),
           Contract('Compound.set', COMP + '.set', f(1, 1), post_cset, env=env_c),
           Contract('DateYYYYMMDD.explode', DATE + '.explode', setup_d, post_ex, env=env_d), Contract('DateYYYYMMDD.compose', DATE + '.compose', lambda c, st: setup_d(c, st)[:1], post_co, env=env_d)]
    for kind, nm in (('values', 'values'), ('text', 'text'), ('pattern', 'text, separator pattern')): out.append(Contract('JoinedString.set(%s)' % nm, JS + '.set', setup_j(kind), post_j(kind), env=env_j(kind), loops=[LoopSpec('values', inv_j(kind))]))
    for q in ('value', 'u'): out.append(Contract('JoinedString.' + q, JS + '.' + q, setup_jv, post_jv, env=env_jv, loops=[LoopSpec('members', inv_jv)]))
    for k in range(4): out.append(Contract('DateYYYYMMDD.__compound_init__ (%d fields given)' % k, DATE + '.__compound_init__/raw', setup_i(k), post_i(k), env=env_i))
    return out
ASSUMPTIONS = ['Date.adapt gives a date, None or raises AdaptationError (C01), and reads back what the format writes (C02)', 'setting a part or member never raises and touches nothing else (C01)', 'a schema has exactly three fields with different text names by the time an element is made (__compound_init__, proved; run once: C26), and the mapping holds a child for each (C08)',
               'calling the member schema gives a fresh element', 'contract of append (C06)', 'text.split and pattern.split give a list of texts', 'explode raises nothing outside the hierarchy of Exception, but a request to stop']
