"""C24: the e-mail, URL and phone validators decide exactly their conditions; parsing, IDN conversion and regex matching are taken by contract."""
from common import *
import C18
N_ = 'flatland.validation.network'; NP = 'flatland.validation.string:NANPphone'
txt = lambda s: z3.StringVal(s)
PARTS = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
# ---- e-mail
def at_sign(c):
    """local part, domain, and whether there is exactly one @"""
    i = z3.IndexOf(c.u, txt('@'), 0); l = z3.SubString(c.u, 0, i); d = z3.SubString(c.u, i + 1, z3.Length(c.u) - i - 1); return l, d, z3.And(z3.Contains(c.u, txt('@')), z3.Not(z3.Contains(d, txt('@'))))
def env_e(E, c):
    C18.env(E, c); c.idn, c.idna_ok, c.blank = E.uf('idna', S, S), E.uf('idna_converts', S, B), E.uf('is_space', S, B); c.hit = E.uf('pattern_matches', V, S, B); c.ln, c.la = E.uf('labels_n', S, I), E.uf('labels', S, AV)
    def count(E, st, o, args, kw):
        o = E.strof(o)
        if not (o.eq(c.u) and E.strof(E.from_v(args[0])).eq(txt('@'))): raise Unsupported('count of something else')
        st = st.clone(); n = E.fresh(I, 'ats'); st.pc = st.pc + (n >= 0, (n == 1) == c.one, (n == 0) == z3.Not(z3.Contains(c.u, txt('@')))); yield st, V.int(n)
    E.ext['str.count'] = count
    def split(E, st, o, args, kw):
        o = E.strof(o); sep = E.strof(E.from_v(args[0])) if len(args) == 1 else None
        if sep is not None and o.eq(c.u) and sep.eq(txt('@')):
            for s, b in E.split(st, c.one):
                s = s.clone(); j = z3.Int('j!at')
                if b: yield s, E.newlist_sym(s, z3.IntVal(2), z3.Store(z3.Store(z3.K(I, ABSENT), 0, V.str(c.local)), 1, V.str(c.dom)))
                else: n = E.fresh(I, 'pieces'); s.pc = s.pc + (n >= 1, n != 2); yield s, E.newlist_sym(s, n, E.fresh(AV, 'pieces'))
        elif sep is not None and sep.eq(txt('.')):
            s = st.clone(); n, a = c.ln(o), c.la(o); j = z3.Int('j!lb'); s.pc = s.pc + (n >= 1, z3.ForAll([j], V.is_str(z3.Select(a, j)), patterns=[z3.Select(a, j)])); yield s, E.newlist_sym(s, n, a)
        else: raise Unsupported('split of something else')
    E.ext['str.split'] = split
    E.iface['len'] = lambda E, st, o: iter([(st, V.int(z3.Length(V.s(E.to_v(o)))))])          # the labels are text
    E.ext['str.isspace'] = lambda E, st, o, args, kw: iter([(st, V.bool(c.blank(E.strof(o))))])
    def enc(E, st, o, args, kw):
        o = E.strof(o)
        if len(args) != 1 or not E.to_v(args[0]).eq(V.str(txt('idna'))): raise Unsupported('encoding')
        for s, b in E.split(st, c.idna_ok(o)): yield s, (V.str(c.idn(o)) if b else Exc('UnicodeError'))
    E.ext['str.encode'] = enc; E.ext['str.decode'] = lambda E, st, o, args, kw: iter([(st, o)])
    E.icall['match'] = lambda E, st, o, args, kw: iter([(st, z3.If(c.hit(E.to_v(o), E.strof(E.from_v(args[0]))), TRUE, NONE))])
def setup_e(c, st):
    a = C18.setup(N_ + ':IsEmail')(c, st); E = c.E; c.local, c.dom, c.one = at_sign(c); r = E.ref(c.me); c.nl = c.sym('non_local', B); E.setf(st, r, 'non_local', V.bool(c.nl)); c.lp = c.sym('local_part_pattern'); c.dp = c.obj(st, 'domain_pattern'); E.setf(st, r, 'local_part_pattern', c.lp); E.setf(st, r, 'domain_pattern', c.dp); c.assume(st, z3.And(c.dp != c.me, c.dp != c.el, z3.Or(c.lp == NONE, z3.And(V.is_obj(c.lp), V.r(c.lp) > 0, T(E, st, c.lp), c.lp != c.me, c.lp != c.el)))); return a
def post_e(c, st, r):
    l, d, one = at_sign(c); x = c.idn(d); n, a = c.ln(x), c.la(x); j = z3.Int('j!p')
    short = FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Length(V.s(z3.Select(a, j))) < 64), z3.Select(a, j))
    return C18.judged(c, st, r, z3.And(one, l != txt(''), z3.Not(c.blank(l)), z3.Or(c.lp == NONE, c.hit(c.lp, l)), c.idna_ok(d), z3.Length(x) <= 253, c.hit(c.dp, x), z3.Or(n > 1, z3.Not(c.nl)), short))
# ---- URLs
def env_url(E, c, *errs):
    C18.env(E, c); c.bad, c.part = E.uf('does_not_parse', V, B), E.uf('url_part', V, V, V); c.raises = E.uf('part_raises', V, V, B); c.of = E.uf('parse_result', V, I)
    def parse(E, st, o, args, kw):
        if len(args) != 1 or kw: raise Unsupported('urlparse')
        t = E.to_v(args[0])
        for s, b in E.split(st, c.bad(t)):
            if b:
                yield s, Exc('ValueError')
                continue
            s = s.clone(); v = E.alloc(s); E.setf(s, E.ref(v), 'parsed_from', t); yield s, v
    E.icall['urlparse'] = parse
    def get(E, st, args):
        o, n = E.to_v(args[0]), E.to_v(args[1]); t = E.getf(st, E.ref(o), 'parsed_from')
        for s, b in E.split(st, c.raises(t, n)): yield s, (Exc('ValueError') if b else c.part(t, n))
    E.iface['getattr'] = get
    for n in PARTS:
        def h(E, st, o, n=n): return get(E, st, [o, n])
        E.iface[n] = h
    c.memb = E.uf('member', V, V, B)
def setup_url(cls):
    def f(c, st):
        a = C18.setup(N_ + ':' + cls)(c, st); E = c.E; table(c, st, N_, '_url_parts'); c.up = c.obj(st, 'urlparse'); c.distinct(st, c.me, c.el, c.up); E.setf(st, E.ref(c.me), 'urlparse', c.up); x = z3.Const('x!pt', V); t = z3.Const('t!pt', V); p = c.part(t, x); c.assume(st, FA([t, x], z3.And(p != ABSENT, z3.Implies(V.is_obj(p), V.r(p) > 0)), p)); return a
    return f
def setup_u(c, st):
    a = setup_url('URLValidator')(c, st); E = c.E; t = z3.Const('t!pt', V); c.stripped = E.uf('str_strip', S, S); c.assume(st, z3.Or(c.value == NONE, V.is_str(c.value)))
    c.assume(st, z3.And([z3.And(FA(t, V.is_str(c.part(t, V.str(txt(n)))), c.part(t, V.str(txt(n)))), FA(t, z3.Not(c.raises(t, V.str(txt(n)))), c.part(t, V.str(txt(n))))) for n in PARTS]))
    c.all_schemes = c.sym('any_scheme', B)
    c.parts = c.obj(st, 'allowed_parts'); E.setf(st, E.ref(c.me), 'allowed_parts', c.parts); c.sn, c.sa = c.sym('number_of_schemes', I), z3.Const('in_schemes', AV); c.assume(st, c.sn >= 0); c.schemes = c.obj(st, 'allowed_schemes', None); E.setf(st, E.ref(c.me), 'allowed_schemes', c.schemes); c.distinct(st, c.me, c.el, c.up, c.parts, c.schemes)
    E.iface['eq'] = lambda E, st, a, b: c.all_schemes if any(c.schemes.eq(E.to_v(x)) for x in (a, b)) else E.eq(st, a, b); return a
def post_u(c, st, r):
    t = V.str(c.stripped(V.s(c.value))); p = lambda n: c.part(t, V.str(txt(n))); E_ = V.str(txt(''))
    return C18.judged(c, st, r, z3.And(c.value != NONE, z3.Not(c.bad(t)), p('scheme') != E_, z3.Or(c.all_schemes, c.memb(c.schemes, p('scheme'))), z3.And([z3.Or(c.memb(c.parts, V.str(txt(n))), p(n) == E_) for n in PARTS])))
# ---- HTTP URLs: any list of parts, any requirements
def env_h(E, c):
    env_url(E, c); E.iface.pop('eq', None)
def setup_h(c, st):
    a = setup_url('HTTPURLValidator')(c, st); E = c.E; r = E.ref(c.me); c.req, c.forb, c.ap = c.dict(st, 'required_parts'), c.dict(st, 'forbidden_parts'), c.list(st, 'all_parts'); c.distinct(st, c.me, c.el, c.up, c.req, c.forb, c.ap)
    for n, v in (('required_parts', c.req), ('forbidden_parts', c.forb), ('all_parts', c.ap)): E.setf(st, r, n, v)
    c.n, c.a = E.llen(st, E.ref(c.ap)), E.larr(st, E.ref(c.ap)); j = z3.Int('j!h'); s = z3.Select(c.a, j); c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), V.is_str(s)), s))
    x, t = z3.Const('x!h', V), z3.Const('t!h', V); p = c.part(t, V.str(txt('port'))); c.assume(st, FA(t, z3.Or(p == NONE, V.is_int(p)), p))
    for d in (c.req, c.forb): c.assume(st, FA(x, z3.Implies(z3.Select(E.dom(st, E.ref(d)), x), z3.Select(E.dmap(st, E.ref(d)), x) != ABSENT), z3.Select(E.dom(st, E.ref(d)), x)))
    c.s0h = st.clone(); return a
def value_of(c, k):
    v = c.part(c.value, k); return z3.If(z3.And(k == V.str(txt('port')), v != NONE), V.str(c.E.uf('uni', V, S)(v)), v)
def rule(c, d, k):
    E, st = c.E, c.s0h; r = E.ref(d); return z3.If(z3.Select(E.dom(st, r), k), z3.Select(E.dmap(st, r), k), NONE)
def fine(c, st, k):
    q, f, v = rule(c, c.req, k), rule(c, c.forb, k), value_of(c, k); t = lambda x: T(c.E, c.s0h, x)
    return z3.And(z3.Not(c.raises(c.value, k)), z3.If(q == TRUE, t(v), z3.Implies(t(q), c.memb(q, v))), z3.If(f == TRUE, z3.Not(t(v)), z3.Implies(t(f), z3.Not(c.memb(f, v)))))
def inv_h(L):
    c, st = L.c, L.st; j = z3.Int('j!h'); s = z3.Select(c.a, j); return [('bound', L.i <= c.n), ('no message so far', cnt(L.E, st, 'note') == 0), ('all parts so far are fine', FA(j, z3.Implies(z3.And(0 <= j, j < L.i), fine(c, st, s)), s))]
def post_h(c, st, r):
    j = z3.Int('j!h'); s = z3.Select(c.a, j); ok = FA(j, z3.Implies(z3.And(0 <= j, j < c.n), fine(c, st, s)), s)
    return C18.judged(c, st, r, z3.Or(c.value == NONE, z3.And(z3.Not(c.bad(c.value)), ok)))
# ---- canonical URLs
def env_c(E, c):
    env_url(E, c); E.iface.pop('eq', None)
    def it(E, st, o): t = E.getf(st, E.ref(o), 'parsed_from'); yield st, SeqVal(z3.IntVal(6), c.all6(t))
    E.iface['iter'] = it
    def un(E, st, o, args, kw):
        if len(args) != 1 or kw: raise Unsupported('urlunparse')
        st = st.clone(); r = E.ref(args[0]); n, a = E.llen(st, r), E.larr(st, r); v = E.fresh(V, 'url'); st.pc = st.pc + (V.is_str(v),); rec(E, st, 'un', v, V.int(n), *[z3.Select(a, k) for k in range(6)]); yield st, v
    E.icall['urlunparse'] = un
def setup_c(c, st):
    a = setup_url('URLCanonicalizer')(c, st); E = c.E; c.all6 = E.uf('parts_in_order', V, AV); c.disc = c.list(st, 'discard_parts'); c.distinct(st, c.me, c.el, c.up, c.disc); E.setf(st, E.ref(c.me), 'discard_parts', c.disc); c.n, c.a = E.llen(st, E.ref(c.disc)), E.larr(st, E.ref(c.disc)); j = z3.Int('j!c'); s = z3.Select(c.a, j); trace(c, st, 'un', 8)
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.Or([s == V.str(txt(n)) for n in PARTS])), s)); p = z3.Int('p!c'); q = z3.Select(c.all6(c.value), p); c.assume(st, FA(p, z3.Implies(z3.And(0 <= p, p < 6), z3.And(q != ABSENT, z3.Implies(V.is_obj(q), V.r(q) > 0))), q)); return a
def out_part(c, k, i):
    j = z3.Int('j!c'); s = z3.Select(c.a, j); o = z3.Select(c.all6(c.value), k); gone = z3.Not(FA(j, z3.Implies(z3.And(0 <= j, j < i), s != V.str(txt(PARTS[k]))), s)); return gone, o, z3.If(o != NONE, V.str(txt('')), NONE)
def inv_c(L):
    c, E, st = L.c, L.E, L.st; r = E.ref(L.var('url')); a = E.larr(st, r); out = [('bound', L.i <= c.n), ('six parts', E.llen(st, r) == 6)]
    for k in range(6): g, o, b = out_part(c, k, L.i); out += [('%s goes when discarded' % PARTS[k], z3.Implies(g, z3.Select(a, k) == b)), ('%s stays otherwise' % PARTS[k], z3.Implies(z3.Not(g), z3.Select(a, k) == o))]
    return out
def post_c(c, st, r):
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    E = c.E; n, u = cnt(E, st, 'note'), cnt(E, st, 'un'); v = E.getf(st, E.ref(c.el), 'value'); bad = z3.And(c.n > 0, c.bad(c.value)); todo = z3.And(c.n > 0, z3.Not(c.bad(c.value)))
    out = [('nothing to discard: accepted as it is', z3.Implies(c.n == 0, z3.And(E.to_v(r) == TRUE, n == 0, v == c.value, u == 0))), ('what does not parse is rejected, once', z3.Implies(bad, z3.And(E.to_v(r) == FALSE, n == 1, col(E, st, 'note', 0, 0) == c.el, v == c.value))),
        ('the rest is accepted and rebuilt', z3.Implies(todo, z3.And(E.to_v(r) == TRUE, n == 0, u == 1, v == col(E, st, 'un', 0, 0), col(E, st, 'un', 1, 0) == V.int(z3.IntVal(6)))))]
    for k in range(6):
        g, o, b = out_part(c, k, c.n); w = col(E, st, 'un', 2 + k, 0); out += [('%s goes when discarded' % PARTS[k], z3.Implies(z3.And(todo, g), w == b)), ('%s stays otherwise' % PARTS[k], z3.Implies(z3.And(todo, z3.Not(g)), w == o))]
    return out + unchanged(c, st, 'f.u')
# ---- phone numbers
def env_p(E, c):
    C18.env(E, c); c.digits, c.low, c.asc, c.num = E.uf('digits_of', S, S), E.uf('ascii_digits', S, B), E.uf('as_ascii', S, S), E.uf('number', S, I)
    def sub(E, st, o, args, kw):
        if len(args) != 2 or not E.to_v(args[0]).eq(V.str(txt(''))): raise Unsupported('sub')
        st = st.clone(); d = c.digits(E.strof(E.from_v(args[1]))); st.pc = st.pc + (z3.Length(c.asc(d)) == z3.Length(d), z3.Implies(c.low(d), c.asc(d) == d)); yield st, V.str(d)
    E.icall['sub'] = sub; E.icall['match'] = lambda E, st, o, args, kw: iter([(st, z3.If(c.low(E.strof(E.from_v(args[0]))), TRUE, NONE))])
    def join(E, st, o, args, kw):
        if not E.strof(o).eq(txt('')): raise Unsupported('join')
        c.joined = 1; yield st, V.str(c.asc(c.digits(c.source)))
    E.ext['str.join'] = join
    E.ext['int'] = lambda E, st, args, kw: iter([(st, V.int(c.num(E.strof(E.from_v(args[0])))))])
    c.form = E.uf('formatted', V, V, S); E.ext['format'] = lambda E, st, a, b, fr: iter([(st, V.str(c.form(E.to_v(a), E.to_v(b))))])
    def st_(E, st, o, args, kw): st = st.clone(); rec(E, st, 'set', o, args[0] if args else NIL, V.int(z3.IntVal(len(args) + len(kw)))); yield st, True
    E.icall['set'] = st_
def setup_ph(c, st):
    a = C18.setup(NP)(c, st); E = c.E; r = E.ref(c.me); c.ext = c.sym('extensions'); c.assume(st, z3.Or(c.ext == TRUE, c.ext == FALSE, c.ext == V.str(txt('strip')))); E.setf(st, r, 'extensions', c.ext); c.assume(st, z3.Or(c.value == NONE, V.is_str(c.value)))
    for n in ('re_cleaner', 're_lowbit'): v = c.obj(st, n); E.setf(st, r, n, v); c.assume(st, z3.And(v != c.me, v != c.el))
    pin(c, st, c.me, NP, 'fmt_line', 'fmt_ext'); c.F = [E.getf(st, r, n) for n in ('fmt_line', 'fmt_ext')]; c.source = z3.If(c.value == NONE, c.u, V.s(c.value)); trace(c, st, 'set', 3); return a
def post_ph(c, st, r):
    d = c.digits(c.source); n = z3.Length(d); ok = z3.And(n >= 10, z3.Or(n == 10, c.ext != FALSE)); E = c.E
    if isexc(r): return [('no exception (not %s)' % r.cls, False)]
    a = c.asc(d); num = lambda lo, n: V.int(c.num(z3.SubString(a, lo, n))); tup = lambda *xs: V.cons(xs[0], tup(*xs[1:])) if xs else NIL; x = col(E, st, 'set', 1, 0); L = [num(0, 3), num(3, 3), num(6, 4)]; short = z3.Or(n == 10, c.ext == V.str(txt('strip')))
    std = [('ten digits: area, exchange, line', z3.Implies(z3.And(ok, short), x == V.str(c.form(c.F[0], tup(*L))))), ('more: and the rest as the extension', z3.Implies(z3.And(ok, z3.Not(short)), x == V.str(c.form(c.F[1], tup(*(L + [num(10, z3.Length(a) - 10)]))))))]
    s = cnt(E, st, 'set'); return std + C18.judged(c, st, r, ok) + [('an accepted number is rewritten, once', z3.Implies(ok, z3.And(s == 1, col(E, st, 'set', 0, 0) == c.el, col(E, st, 'set', 2, 0) == V.int(1)))), ('a rejected one is left', z3.Implies(z3.Not(ok), s == 0))]
def contracts(P):
    return [Contract('IsEmail', N_ + ':IsEmail.validate', setup_e, post_e, env=env_e), Contract('URLValidator', N_ + ':URLValidator.validate', setup_u, post_u, env=env_url), Contract('HTTPURLValidator', N_ + ':HTTPURLValidator.validate', setup_h, post_h, env=env_h, loops=[LoopSpec('parts', inv_h)]),
            Contract('URLCanonicalizer', N_ + ':URLCanonicalizer.validate', setup_c, post_c, env=env_c, loops=[LoopSpec('discarded', inv_c, kind='For')]), Contract('NANPphone', NP + '.validate', setup_ph, post_ph, env=env_p)]
ASSUMPTIONS = ['the IDNA codec gives text or raises UnicodeError (known finding idna-java: on Jython it can raise a Java exception)', 'urlparse gives an object with the named parts or raises ValueError; iterating it gives its six parts; urlunparse gives text', 'text with exactly one @ splits there; text.split(".") gives the labels; compiled patterns, isspace and int(digits) are taken by name', 'the patterns for domains and digits are checked by the executable contracts', 'extensions is True, False or "strip"; discard_parts names URL parts; allowed_schemes other than ("*",) is a collection']
