"""C16: toggles, and each transformer against the documented rule for its attribute."""
from common import *
G, U_ = 'flatland.out.generic', 'flatland.out.util'
YES, NO = ('1', 'true', 't', 'on', 'yes'), ('0', 'false', 'nil', 'off', 'no')
def isin(s, names): return z3.Or([s == z3.StringVal(x) for x in names])
# ---- the reading of a toggle
def troolenv(E, c):
    c.MAY = E.to_v(E.from_desc(E.new_state(), E.P.globals[U_]['Maybe'])) if 'Maybe' in E.P.globals[U_] else None
    if c.MAY is None: raise Unsupported('Maybe')
def troolspec(c, v):
    """(says yes, says no) of a toggle value"""
    E = c.E; low = E.uf('str_lower', S, S); text = z3.If(V.is_str(v), V.s(v), V.s(c.txt(v)))
    lw = low(text); plain = z3.And(v != TRUE, v != FALSE, v != c.MAY)
    return z3.Or(v == TRUE, z3.And(plain, isin(lw, YES))), z3.Or(v == FALSE, z3.And(plain, isin(lw, NO)))
def env(E, c):
    c.txt = E.uf('as_text', V, V)
    E.ext['unicode'] = lambda E, st, a, k: iter([(st, a[0] if E.isstr(st, E.to_v(a[0])) else c.txt(E.to_v(a[0])))])
def base(c, st):
    E = c.E; s = z3.Const('s!low', S); low = E.uf('str_lower', S, S); x = z3.Const('x!txt', V)
    c.MAY = E.to_v(E.lookup_global(st, U_, 'Maybe'))
    c.assume(st, z3.And(FA(s, z3.And(low(s) != z3.StringVal('True'), low(s) != z3.StringVal('False')), low(s)), FA(x, V.is_str(c.txt(x)), c.txt(x))))
def setup_trool(c, st):
    base(c, st); c.v = c.sym('value'); c.assume(st, c.v != ABSENT); return [c.v]
def post_trool(c, st, res):
    if isexc(res): return [('no exception', False)]
    y, n = troolspec(c, c.v); return [('yes, no, or undecided', c.E.to_v(res) == z3.If(y, TRUE, z3.If(n, FALSE, c.MAY)))]
# ---- the world of a transformer: attributes, the settings in effect, a bound field or none
DEFAULTS = {'auto_name': True, 'auto_value': True, 'auto_domid': False, 'auto_for': False, 'auto_tabindex': False, 'auto_filter': False}
TAGS = {'auto_name': ('input', 'button', 'select', 'textarea', 'form'), 'auto_value': ('button', 'input', 'option', 'textarea'), 'auto_domid': ('input', 'button', 'select', 'textarea'),
        'auto_for': ('label',), 'auto_tabindex': ('input', 'button', 'select', 'textarea')}
def toggles(c, dom, mp, sdom, smp, key):
    """(effective, forced) for a toggle, from the attributes, then the settings, then the default"""
    k = sv(key) if isinstance(key, str) else key
    ty, tn = says(c, z3.If(z3.Select(dom, k), z3.Select(mp, k), c.MAY)); sy, sn = says(c, z3.Select(smp, k))
    dflt = z3.Or([k == sv(n) for n, v in DEFAULTS.items() if v])
    return z3.Or(ty, z3.And(z3.Not(tn), z3.Or(sy, z3.And(z3.Not(sn), dflt)))), ty
def says(c, v):
    """the two parts of troolspec (the contract of parse_trool), named: callers do not look inside"""
    return c.E.uf('says_yes', V, B)(v), c.E.uf('says_no', V, B)(v)
def env_w(E, c, pop=True):
    env(E, c)
    def get(E, st, b, f):
        r, k = E.ref(c.scope), E.to_v(b['key'])
        for s, t in E.split(st, E.dhas(st, r, k)): yield s, (E.dget(s, r, k) if t else Exc('KeyError'))
    def put(E, st, b, f):
        r, k = E.ref(c.scope), E.to_v(b['key'])
        for s, t in E.split(st, E.dhas(st, r, k)):
            if t: s = s.clone(); E.dput(s, r, k, b['value']); yield s, None
            else: yield s, Exc('KeyError')
    E.contracts[G + ':Context.__getitem__'] = get; E.contracts[G + ':Context.__setitem__'] = put
    E.contracts[U_ + ':parse_trool'] = lambda E, st, b, f: iter([(st, (lambda y, n: z3.If(y, TRUE, z3.If(n, FALSE, c.MAY)))(*says(c, E.to_v(b['value']))))])
    if pop:
        def pt(E, st, b, f):
            a, s = E.ref(b['attributes']), E.ref(c.scope); k = E.to_v(b['key']); st = st.clone()
            e, fo = toggles(c, E.dom(st, a), E.dmap(st, a), E.dom(st, s), E.dmap(st, s), k); E.ddel(st, a, k); yield st, Tup([V.bool(e), V.bool(fo)])
        E.contracts[G + ':_pop_toggle'] = pt
    c.bn = E.uf('full_name', V, S)
    E.icall['flattened_name'] = lambda E, st, o, args, kw: iter([(st, V.str(c.bn(o)))])
    frozen(E, 'u', 'true')
    c.member = E.uf('member', V, V, B)
    E.iface['contains'] = lambda E, st, o, x: iter([(st, V.bool(c.member(E.to_v(o), E.to_v(x))))])
    c.esc = E.uf('escaped', V, S); c.wrapped = E.uf('wrapped', V, V, V)
    E.contracts[G + ':_markup_escape'] = lambda E, st, b, f: iter([(st, V.str(c.esc(E.to_v(b['string']))))])
    E.extcall = lambda E, st, f, args, kw: iter([(st, c.wrapped(E.to_v(f), E.to_v(args[0])))])
    c.san = E.uf('sanitized', S, S)
    E.contracts[G + ':_sanitize_domid_suffix'] = lambda E, st, b, f: iter([(st, V.str(c.san(V.s(E.to_v(b['string'])))))])
    frozen(E, 'fmt')
def world(c, st):
    E = c.E; base(c, st); c.at = c.dict(st, 'attributes'); c.scope = c.dict(st, 'settings'); c.ctx = c.obj(st, 'context', G + ':Context'); c.bind = c.sym('bind')
    c.tag = c.sym('tagname', S); c.contents = c.sym('contents'); table(c, st, G, '_default_context'); table(c, st, G, '_auto_tags'); c.distinct(st, c.at, c.scope, c.ctx, *c.tables)
    a, s = E.ref(c.at), E.ref(c.scope); c.ad, c.am, c.sd, c.sm = E.dom(st, a), E.dmap(st, a), E.dom(st, s), E.dmap(st, s); x = z3.Const('x!', V)
    c.assume(st, z3.And([z3.Select(c.sd, sv(k)) for k in list(DEFAULTS) + ['domid_format', 'tabindex', 'filters', 'markup_wrapper']]))
    c.assume(st, z3.And(FA(x, z3.And(z3.Select(c.am, x) != ABSENT, z3.Select(c.sm, x) != ABSENT), z3.Select(c.am, x)), FA(x, z3.Select(c.sm, x) != ABSENT, z3.Select(c.sm, x))))
    c.assume(st, z3.Or(c.bind == NONE, z3.And(V.is_obj(c.bind), V.r(c.bind) > 0, z3.Not(z3.Or([V.r(c.bind) == r for r in (a, s, E.ref(c.ctx))])))))
    y, n = says(c, x); c.assume(st, z3.And(FA(x, z3.Not(z3.And(y, n)), y), z3.Not(z3.Or(*says(c, c.MAY)))))     # consequences of troolspec
    c.u = E.uf('attr_u', I, V)(V.r(c.bind)); c.assume(st, V.is_str(c.u))
    c.isarr, c.isbool = (E.uf('isinst_flatland.schema.' + q, I, B)(V.r(c.bind)) for q in ('containers:Array', 'scalars:Boolean'))
def setup(c, st): world(c, st); return [V.str(c.tag), c.at, c.contents, c.ctx, c.bind]
def setup_pop(c, st):
    world(c, st); c.key = c.sym('key'); c.assume(st, z3.Or([c.key == sv(k) for k in DEFAULTS])); return [c.key, c.at, c.ctx]
def post_pop(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; e, fo = toggles(c, c.ad, c.am, c.sd, c.sm, c.key); v = E.to_v(res); a = E.ref(c.at)
    return [('the tag\'s toggle decides, then the setting in effect, then the default; forced only by the tag\'s own yes', v == V.cons(V.bool(e), V.cons(V.bool(fo), NIL))),
            ('the toggle is removed and nothing else', z3.And(E.dom(st, a) == z3.Store(c.ad, c.key, False), E.dmap(st, a) == c.am))] + frame(c, st, a)
def frame(c, st, *refs): return [framed(c, st, n, *refs) for n in ('dom', 'map')] + unchanged(c, st, 'llen', 'lel')
def attr(c, k, dom=None): return z3.If(z3.Select(c.ad if dom is None else dom, sv(k)), z3.Select(c.am, sv(k)), NONE)
def same(c, st, dom, mp):
    """the attributes are exactly those of dom, with the values of mp"""
    E = c.E; a = E.ref(c.at); x = z3.Const('x!p', V); d, m = E.dom(st, a), E.dmap(st, a)
    return [('the attributes are exactly those the rule gives', FA(x, z3.And(z3.Select(d, x) == z3.Select(dom, x), z3.Implies(z3.Select(dom, x), z3.Select(m, x) == z3.Select(mp, x))), z3.Select(d, x)))]
def put(dom, mp, cond, k, v): return z3.If(cond, z3.Store(dom, sv(k), True), dom), z3.If(cond, z3.Store(mp, sv(k), v), mp)
def tg(c, key): return z3.Or([c.tag == z3.StringVal(t) for t in TAGS[key]])
def start(c, key):
    e, fo = toggles(c, c.ad, c.am, c.sd, c.sm, key); return e, fo, z3.Store(c.ad, sv(key), False), c.am
def post_name(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    e, fo, d, m = start(c, 'auto_name'); n = c.bn(c.bind)
    d, m = put(d, m, z3.And(e, c.bind != NONE, n != z3.StringVal(''), z3.Or(fo, z3.And(attr(c, 'name') == NONE, tg(c, 'auto_name')))), 'name', V.str(n))
    return [('the contents stay', c.E.to_v(res) == c.contents)] + same(c, st, d, m) + frame(c, st, c.E.ref(c.at))
def setup_v(c, st):
    a = setup(c, st); E = c.E; none = lambda v: z3.Or(V.is_str(v), v == NONE); t = E.uf('attr_true', I, V)(V.r(c.bind))
    c.assume(st, z3.And(none(c.contents), V.is_str(t), z3.Implies(z3.Select(c.ad, sv('value')), none(z3.Select(c.am, sv('value')))), z3.Implies(z3.Select(c.ad, sv('type')), none(z3.Select(c.am, sv('type')))))); return a
def post_value(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; e, fo, d, m = start(c, 'auto_value'); on = z3.And(e, c.bind != NONE, z3.Or(fo, tg(c, 'auto_value'))); is_ = lambda t: c.tag == z3.StringVal(t)
    ty = z3.If(z3.Select(d, sv('type')), z3.Select(m, sv('type')), sv('')); check, radio = ty == sv('checkbox'), ty == sv('radio'); quiet = z3.Or([ty == sv(x) for x in ('password', 'file', 'image')])
    has = lambda v: z3.If(c.isarr, c.member(c.bind, v), v == c.u); cur = attr(c, 'value'); tick = z3.And(on, is_('input'), z3.Or(check, radio))
    true = E.uf('attr_true', I, V)(V.r(c.bind)); gen = z3.And(tick, check, cur == NONE, c.isbool)
    now = z3.If(gen, true, z3.If(z3.And(radio, z3.Not(z3.Select(d, sv('value')))), sv(''), cur))
    d, m = put(d, m, gen, 'value', true)
    d, m = put(d, m, z3.And(tick, has(now)), 'checked', sv('checked')); d = z3.If(z3.And(tick, z3.Not(has(now))), z3.Store(d, sv('checked'), False), d)
    opt = z3.And(on, is_('option')); text = z3.If(cur != NONE, cur, z3.If(V.is_str(c.contents), V.str(E.uf('str_strip', S, S)(V.s(c.contents))), z3.If(c.contents == NONE, sv(''), c.contents)))
    d, m = put(d, m, z3.And(opt, has(text)), 'selected', sv('selected')); d = z3.If(z3.And(opt, z3.Not(has(text))), z3.Store(d, sv('selected'), False), d)
    d, m = put(d, m, z3.And(on, is_('input'), quiet, fo), 'value', c.u)
    d, m = put(d, m, z3.And(on, z3.Or(z3.And(is_('input'), z3.Not(z3.Or(check, radio, quiet))), z3.Not(z3.Or(is_('input'), is_('option'), is_('textarea')))), z3.Or(fo, cur == NONE)), 'value', c.u)
    area = z3.And(on, is_('textarea'), z3.Or(fo, c.contents == NONE))
    return [('the body of a text area is the field\'s escaped text unless given, other contents stay', E.to_v(res) == z3.If(area, c.wrapped(z3.Select(c.sm, sv('markup_wrapper')), V.str(c.esc(c.u))), c.contents))] + same(c, st, d, m) + frame(c, st, E.ref(c.at))
def setup_id(c, st):
    a = setup(c, st); c.assume(st, V.is_str(z3.Select(c.sm, sv('domid_format')))); c.assume(st, z3.And([z3.Implies(z3.Select(c.ad, sv(k)), z3.Or(V.is_str(z3.Select(c.am, sv(k))), z3.And(z3.BoolVal(k == 'name'), z3.Select(c.am, sv(k)) == NONE))) for k in ('name', 'value')])); return a
def env_id(E, c):
    env_w(E, c); c.form = E.uf('formatted', V, V, V)
    E.ext['format'] = lambda E, st, a, b, fr: iter([(st, c.form(E.to_v(a), E.to_v(b)))])
def post_id(key, at, need):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        E = c.E; e, fo, d, m = start(c, key); nm = attr(c, 'name'); bn = z3.If(c.bind != NONE, c.bn(c.bind), z3.If(nm == NONE, z3.StringVal(''), V.s(nm)))
        ty = attr(c, 'type'); suf = c.san(z3.If(z3.Select(c.ad, sv('value')), V.s(z3.Select(c.am, sv('value'))), z3.StringVal('')))
        raw = z3.If(z3.And(c.tag == z3.StringVal('input'), z3.Or(ty == sv('checkbox'), ty == sv('radio')), suf != z3.StringVal('')), z3.Concat(bn, z3.StringVal('_'), suf), bn)
        on = z3.And(e, bn != z3.StringVal(''), z3.Or(fo, z3.And(attr(c, at) == NONE, tg(c, key))), z3.Or(c.bind != NONE, not need))
        d, m = put(d, m, on, at, c.form(z3.Select(c.sm, sv('domid_format')), V.str(raw)))
        return [('the contents stay', E.to_v(res) == c.contents)] + same(c, st, d, m) + frame(c, st, E.ref(c.at))
    return post
def setup_tab(c, st):
    a = setup(c, st); c.assume(st, V.is_int(z3.Select(c.sm, sv('tabindex')))); return a
def post_tab(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; e, fo, d, m = start(c, 'auto_tabindex'); n = V.i(z3.Select(c.sm, sv('tabindex'))); s = E.ref(c.scope)
    on = z3.And(e, n != 0, z3.Or(fo, z3.And(attr(c, 'tabindex') == NONE, tg(c, 'auto_tabindex')))); d, m = put(d, m, on, 'tabindex', c.txt(V.int(n)))
    return [('the contents stay', E.to_v(res) == c.contents), ('the next tab index: one more after a positive one was used', z3.And(E.dom(st, s) == c.sd, E.dmap(st, s) == z3.If(z3.And(on, n > 0), z3.Store(c.sm, sv('tabindex'), V.int(n + 1)), c.sm)))] + same(c, st, d, m) + frame(c, st, E.ref(c.at), s)
# ---- filters: each that applies to the tag, once, in order, contents passed along
def env_f(E, c):
    env_w(E, c); c.C = E.uf('applied_before', I, I); c.res = E.uf('result_of_call', I, V); c.want = E.uf('tags_of', V, V); c.t = E.uf('truthy', V, B)
    E.iface['getattr'] = lambda E, st, a: iter([(st, c.want(E.to_v(a[0])))])
    E.iface['truth'] = lambda E, st, o: E.split(st, c.t(E.to_v(o)))
    def call(E, st, f, args, kw):
        st = st.clone(); k = cnt(E, st, 'call'); rec(E, st, 'call', f, *args[:5]); st.pc = st.pc + (c.res(k) != ABSENT,)
        for r in (E.ref(c.at), E.ref(c.scope)): E.dset(st, r, E.fresh(DOM, 'fd'), E.fresh(MAP, 'fm'))
        yield st, c.res(k)
    E.extcall = call
def setup_f(c, st):
    a = setup(c, st); E = c.E; c.fs = c.list(st, 'filters'); c.distinct(st, c.fs, c.at, c.scope, c.ctx); c.assume(st, z3.Select(c.sm, sv('filters')) == c.fs); E.setclass(st, E.dget(st, E.ref(c.scope), sv('filters')), '__builtin__:list')
    c.assume(st, z3.Not(c.t(NONE))); trace(c, st, 'call', 6); c.n, c.arr = E.llen(st, E.ref(c.fs)), E.larr(st, E.ref(c.fs)); j = z3.Int('j!')
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(z3.Select(c.arr, j)), V.r(z3.Select(c.arr, j)) > 0, z3.Or(c.want(z3.Select(c.arr, j)) == NONE, z3.And(V.is_obj(c.want(z3.Select(c.arr, j))), V.r(c.want(z3.Select(c.arr, j))) > 0)))), z3.Select(c.arr, j)))
    c.emit = lambda j: z3.Or(c.want(z3.Select(c.arr, j)) == NONE, z3.Not(c.t(c.want(z3.Select(c.arr, j)))), c.member(c.want(z3.Select(c.arr, j)), V.str(c.tag)))
    c.assume(st, z3.And(c.C(0) == 0, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), c.C(j + 1) == c.C(j) + z3.If(c.emit(j), 1, 0)), (c.C(j), z3.Select(c.arr, j))))); return a
def called(c, st, i):
    E = c.E; N = cnt(E, st, 'call'); j, k = z3.Ints('j!o k!o'); x = lambda m, k: col(E, st, 'call', m, k)
    return [('as many calls as filters apply', N == c.C(i)), ('counts', FA(j, z3.Implies(z3.And(0 <= j, j < i), z3.And(0 <= c.C(j), c.C(j) <= c.C(i), z3.Implies(c.emit(j), c.C(j) < c.C(i)))), c.C(j))),
            ('each filter that applies, in its place', FA(j, z3.Implies(z3.And(0 <= j, j < i, c.emit(j)), x(0, c.C(j)) == z3.Select(c.arr, j)), c.C(j), z3.Select(c.arr, j))),
            ('with the tag, the attributes, the contents so far, the context and the field', FA(k, z3.Implies(z3.And(0 <= k, k < N), z3.And(x(1, k) == V.str(c.tag), x(2, k) == c.at, x(4, k) == c.ctx, x(5, k) == c.bind, x(3, k) == z3.If(k == 0, c.contents, c.res(k - 1)))), c.res(k), x(3, k)))]
def last(c, st): N = cnt(c.E, st, 'call'); return z3.If(N == 0, c.contents, c.res(N - 1))
def inv_f(L): return [('bound', z3.And(L.i <= L.c.n, cnt(L.E, L.st, 'call') >= 0))] + called(L.c, L.st, L.i) + [('the contents so far', L.var('contents') == last(L.c, L.st))]
def post_f(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; e, fo = toggles(c, c.ad, c.am, c.sd, c.sm, 'auto_filter'); on = e
    return [('off: nothing runs', z3.Implies(z3.Not(on), cnt(E, st, 'call') == 0)), ('the contents of the last one, or as they were', E.to_v(res) == last(c, st))] + [(n, z3.Implies(on, g)) for n, g in called(c, st, c.n)]
# ---- transform: all of them, each once, contents passed along
NAMES = ('name', 'value', 'domid', 'for', 'tabindex', 'filters')
def env_t(E, c):
    env(E, c)
    c.res = E.uf('result_of_call', I, V)
    for k, nm in enumerate(NAMES):
        def h(E, st, b, f, k=k):
            st = st.clone(); n = cnt(E, st, 'call'); rec(E, st, 'call', V.int(k), *[b[a.id] for a in f.node.args.args]); yield st, c.res(n)
        E.contracts[G + ':transform_' + nm] = h
def setup_t(c, st):
    a = setup(c, st); table(c, st, G, '_transforms'); trace(c, st, 'call', 6); return a
def post_t(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; n = len(NAMES); x = lambda m, k: col(E, st, 'call', m, k)
    return [('six steps, contents passed along', z3.And([cnt(E, st, 'call') == n, E.to_v(res) == c.res(n - 1)] + [z3.And(x(1, k) == V.str(c.tag), x(2, k) == c.at, x(3, k) == (c.contents if k == 0 else c.res(k - 1)), x(4, k) == c.ctx, x(5, k) == c.bind) for k in range(n)])),
            ('each step once', z3.And([z3.Or([x(0, k) == V.int(m) for k in range(n)]) for m in range(n)])),
            ('the value before the id made from it, filters last', z3.And([x(0, n - 1) == V.int(5)] + [z3.Not(z3.And(x(0, i) == V.int(m), x(0, j) == V.int(1))) for i in range(n) for j in range(i + 1, n) for m in (2, 3)]))]
def contracts(P):
    T_ = lambda n, post, setup=setup, env=env_w, **k: Contract('transform_' + n, G + ':transform_' + n, setup, post, env=env, **k)
    return [Contract('parse_trool', U_ + ':parse_trool', setup_trool, post_trool, env=env),
            Contract('_pop_toggle', G + ':_pop_toggle', setup_pop, post_pop, env=lambda E, c: env_w(E, c, False)),
            T_('name', post_name), T_('value', post_value, setup_v), T_('domid', post_id('auto_domid', 'id', False), setup_id, env_id), T_('for', post_id('auto_for', 'for', True), setup_id, env_id),
            T_('tabindex', post_tab, setup_tab), T_('filters', post_f, setup_f, env_f, loops=[LoopSpec('filters', inv_f, kind='For')]),
            Contract('transform', G + ':transform', setup_t, post_t, env=env_t)]
ASSUMPTIONS = ['the context behaves as a mapping of settings (contracts of Context.__getitem__/__setitem__, proved under C15)', 'attribute and content values of the value transformer are text or None', 'the markup wrapper, filters and element interface (u, flattened_name, membership) are arbitrary functions', 'text.lower() never yields an upper-case letter']
