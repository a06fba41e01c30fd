"""C14: escaping, character by character, and its use for every attribute value."""
from common import *
G, M_, B_ = 'flatland.out.generic', 'flatland.out.markup', 'flatland.schema.base'
SV = z3.StringVal
def replacer(E, c):
    """text.replace(one character, text) acts on each character on its own"""
    def rep(t, a, b):
        t = z3.simplify(t)
        if z3.is_string_value(t): return SV(t.as_string().replace(a, b))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return z3.Concat(*[rep(x, a, b) for x in t.children()])
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return z3.If(t.arg(0), rep(t.arg(1), a, b), rep(t.arg(2), a, b))
        if hasattr(c, 'ch') and t.eq(c.ch): return z3.If(t == SV(a), SV(b), t)
        return E.uf('replace_all_%s_%s' % (a, b), S, S)(t)
    def h(E, st, o, args, kw):
        a, b = E.from_v(args[0]), E.from_v(args[1])
        if not (isinstance(a, str) and isinstance(b, str) and len(a) == 1 and len(args) == 2): raise Unsupported('replace')
        sx = E.strof(o); f = E.uf('replace_all_%s_%s' % (a, b), S, S); st = st.clone(); st.pc = st.pc + (f(SV('')) == SV(''),); yield st, V.str(z3.simplify(rep(sx, a, b)))
    E.ext['str.replace'] = h
    E.assumed.add('text.replace(c, t) for one character c replaces each occurrence on its own')
ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}
def esc1(ch, which):
    r = ch
    for x in which: r = z3.If(ch == SV(x), SV(ENT[x]), r)
    return r
def setup_esc(c, st):
    c.x, c.ch = c.sym('text', S), c.sym('char', S); c.assume(st, z3.Length(c.ch) == 1); return [V.str(z3.Concat(c.x, c.ch))]
def post_esc(target, which):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        E = c.E; node, q = E.P.resolve(target); out = []
        for s2, r in E.call_func(st, Func(node, node.mod, q), [V.str(c.x)], {}, None):
            if isexc(r): out.append(('no exception', z3.Not(z3.And(list(s2.pc[len(st.pc):]) or [True])))); continue
            g = z3.And(V.is_str(E.to_v(res)), V.is_str(E.to_v(r)), V.s(E.to_v(res)) == z3.Concat(V.s(E.to_v(r)), esc1(c.ch, which)))
            out.append(('escape(text + character) == escape(text) + entity or the character itself', z3.Implies(z3.And(list(s2.pc[len(st.pc):]) or [True]), g)))
        return out
    return post
def setup_none(c, st): c.v = c.sym('value'); c.assume(st, z3.Or(c.v == NONE, c.v == sv(''))); return [c.v]
def post_none(c, st, res): return [('nothing for nothing', z3.BoolVal(False) if isexc(res) else c.E.to_v(res) == sv(''))]
def env_html(E, c):
    replacer(E, c); c.html = E.uf('html_of', V, V); c.t = E.uf('truthy', V, B)
    E.iface['hasattr'] = lambda E, st, o, name: iter([(st, True)]) if name == '__html__' and E.to_v(o).eq(c.v) else None
    E.iface['truth'] = lambda E, st, o: E.split(st, c.t(E.to_v(o)))
    E.icall['__html__'] = lambda E, st, o, args, kw: iter([(st, c.html(o))])
    c.plain = E.uf('plain_text', V, V)
    E.ext['unicode'] = lambda E, st, a, k: iter([(st, c.plain(E.to_v(a[0])))])
    def klass(E, st, o): k = E.uf('class_of', V, V)(E.to_v(o)); st = st.clone(); st.pc = st.pc + (V.is_obj(k),); yield st, k
    E.iface['__class__'] = klass
def setup_html(c, st): c.v = c.obj(st, 'markup'); c.assume(st, z3.Or(V.is_str(c.html(c.v)), z3.And(V.is_obj(c.html(c.v)), V.r(c.html(c.v)) > 0))); x = z3.Const('x!', V); c.assume(st, FA(x, z3.Implies(V.is_str(x), c.plain(x) == x), c.plain(x))); return [c.v]
def post_html(c, st, res): return [('declared markup passes verbatim, as plain text', z3.BoolVal(False) if isexc(res) else c.E.to_v(res) == z3.If(c.t(c.v), z3.If(V.is_str(c.html(c.v)), c.html(c.v), c.plain(c.html(c.v))), sv('')))]
# ---- the opening tag: every attribute as name="escaped value", in order
def env_tag(E, c):
    c.esc = E.uf('attribute_escape', V, S)      # the contract of _attribute_escape, named
    E.contracts[M_ + ':_attribute_escape'] = lambda E, st, b, f: iter([(st, V.str(c.esc(E.to_v(b['string']))))])
    def keyed(E, st, b, f): st = st.clone(); rec(E, st, 'keyed', b['bytestring_keyed']); yield st, c.attrs
    E.contracts[M_ + ':_unicode_keyed'] = keyed
    def transform(E, st, b, f):
        st = st.clone(); rec(E, st, 'transform', *[b[k] for k in ('tagname', 'attributes', 'contents', 'context', 'bind')]); a = E.ref(c.attrs); E.dset(st, a, c.d1, c.m1); yield st, c.new
    E.contracts[G + ':transform'] = transform
    def sort(E, st, args, kw):
        for s, l in E.collect(st, args[0], None):
            j = z3.Int('j!so'); s = s.clone(); rec(E, s, 'sorted', l); yield s, E.newlist_sym(s, c.n, z3.Lambda([j], V.cons(V.str(c.kk(j)), V.cons(c.vv(j), NIL))))
    E.ext['sorted'] = sort; c.kk, c.vv = E.uf('nth_name', I, S), E.uf('nth_value', I, V)
    E.contracts[G + ':_unpack'] = lambda E, st, b, f: iter([(st, c.unp(E.to_v(b['html_string'])))])
    c.unp, c.wrap, c.mk, c.t = E.uf('unpacked', V, V), E.uf('markup_wrapper', V, V), E.uf('declares_markup', V, B), E.uf('truthy', V, B)
    E.contracts[G + ':Context.__getitem__'] = lambda E, st, b, f: E.split(st, c.ordered) if E.from_v(b['key']) == 'ordered_attributes' else iter([(st, c.wrapper)])
    E.extcall = lambda E, st, f, args, kw: iter([(st, c.wrap(E.to_v(args[0])))])
    E.iface['hasattr'] = lambda E, st, o, name: iter([(st, V.bool(c.mk(E.to_v(o))))]) if name == '__html__' else None
    E.iface['truth'] = lambda E, st, o: E.split(st, c.t(E.to_v(o)))
def setup_tag(c, st):
    E = c.E; c.me = c.obj(st, 'tag', M_ + ':Tag'); c.ctx = c.obj(st, 'context', M_ + ':Generator'); c.attrs = c.dict(st, 'attributes'); c.kwargs = c.dict(st, 'kwargs'); c.wrapper = c.obj(st, 'wrapper'); c.bind = c.sym('bind'); c.new = c.sym('new_contents')
    c.distinct(st, c.me, c.ctx, c.attrs, c.kwargs, c.wrapper); c.tag = c.sym('tagname', S); r = E.ref(c.me); E.setf(st, r, 'tagname', V.str(c.tag)); E.setf(st, r, '_context', c.ctx); c.ordered = c.sym('ordered', B); c.n = c.sym('n', I)
    c.d1, c.m1 = c.sym('keys_now', DOM), c.sym('values_now', MAP); x = z3.Const('x!', V); j = z3.Int('j!'); c.assume(st, c.n >= 0); E.textkeyed.append(E.ref(c.attrs))
    ob = lambda v: z3.Or(v == NONE, V.is_str(v), z3.And(V.is_obj(v), V.r(v) > 0)); c.assume(st, z3.And(ob(c.new), c.new != ABSENT, ob(c.bind)))
    c.assume(st, z3.And(FA(x, z3.Implies(z3.Select(c.d1, x), V.is_str(x)), z3.Select(c.d1, x)), FA(x, z3.Select(c.m1, x) != ABSENT, z3.Select(c.m1, x)))); k = E.ref(c.kwargs); c.kd, c.km = E.dom(st, k), E.dmap(st, k)
    c.assume(st, FA(x, z3.Select(c.km, x) != ABSENT, z3.Select(c.km, x))); c.assume(st, z3.And(FA(x, z3.Implies(V.is_str(x), z3.And(c.t(x) == (V.s(x) != SV('')), z3.Not(c.mk(x)))), c.t(x)), z3.Not(c.t(NONE)), z3.Not(c.mk(NONE))))
    trace(c, st, 'transform', 5); trace(c, st, 'keyed', 1); trace(c, st, 'sorted', 1)
def setup_open(c, st): setup_tag(c, st); return [c.me, c.bind, c.kwargs]
def guts(c, st, k, v, n): j = z3.Int('j!m'); return c.E.strjoin(st, SV(' '), n, z3.Lambda([j], V.str(z3.Concat(k(j), SV('="'), c.esc(v(j)), SV('"')))))
def post_open(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; N, ks, ix = E.last_dict_order; sorted_ = c.E.implied(st, c.ordered); a = lambda k: col(E, st, 'transform', k, 0); con = sv('contents')
    g = guts(c, st, c.kk, c.vv, c.n) if sorted_ else guts(c, st, lambda j: V.s(z3.Select(ks, j)), lambda j: z3.Select(c.m1, z3.Select(ks, j)), N); open_ = z3.Concat(SV('<'), c.tag)
    body = z3.If(c.t(c.new), z3.If(c.mk(c.new), c.unp(c.new), c.new), sv('')); k = E.ref(c.kwargs)
    return [('the tag with each attribute as name="escaped value"', E.to_v(res) == V.str(z3.If(g == SV(''), open_, z3.Concat(open_, SV(' '), g)))),
            ('the transformers see the attributes without the contents', z3.And([cnt(E, st, 'transform') == 1, a(0) == V.str(c.tag), a(1) == c.attrs, a(2) == z3.If(z3.Select(c.kd, con), z3.Select(c.km, con), NONE), a(3) == c.ctx, a(4) == c.bind, cnt(E, st, 'keyed') == 1, col(E, st, 'keyed', 0, 0) == c.kwargs, E.dom(st, k) == z3.Store(c.kd, con, False), E.dmap(st, k) == c.km])),
            ('the contents, markup as it declares', E.getf(st, E.ref(c.me), 'contents') == c.wrap(body))]
# ---- the whole tag
def env_call(E, c):
    env_tag(E, c)
    def open_(E, st, b, f):
        st = st.clone(); rec(E, st, 'open', b['bind'], b['kwargs']); E.setf(st, E.ref(c.me), 'contents', c.con); yield st, V.str(c.head)
    E.contracts[M_ + ':Tag._open'] = open_
    frozen(E, 'xml')
def setup_call(c, st):
    E = c.E; setup_tag(c, st); r = E.ref(c.me); c.con = c.sym('contents_now'); c.head = c.sym('header', S); c.paired, c.dangle, c.xml = c.sym('paired', B), c.sym('dangle', B), c.sym('xml', B)
    E.setf(st, r, '_always_paired', V.bool(c.paired)); E.setf(st, r, '_html_dangle', V.bool(c.dangle)); E.setf(st, E.ref(c.ctx), 'xml', V.bool(c.xml))
    x = z3.Const('x!', V); c.assume(st, z3.Or(V.is_str(c.con), z3.And(V.is_obj(c.con), V.r(c.con) > 0))); c.assume(st, z3.Or(V.is_str(c.con), c.mk(c.con))); c.assume(st, V.is_str(c.unp(c.con))); trace(c, st, 'open', 2)
    return [c.me, c.bind], {}, c.kwargs
def post_call(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; body = z3.If(c.mk(c.con), V.s(c.unp(c.con)), V.s(c.con)); close = z3.Concat(SV('</'), c.tag, SV('>'))
    short = z3.And(z3.Not(c.t(c.con)), z3.Not(c.paired)); full = z3.Concat(c.head, SV('>'), body, close)
    return [('the opening tag, its contents as _open left them, and the closing tag', E.to_v(res) == c.wrap(V.str(z3.If(z3.And(short, c.xml), z3.Concat(c.head, SV(' />')), z3.If(z3.And(short, c.dangle), z3.Concat(c.head, SV('>')), full))))),
            ('_open is called once with the field and the attributes', z3.And(cnt(E, st, 'open') == 1, col(E, st, 'open', 0, 0) == c.bind))]
def contracts(P):
    out = []
    for t, which in ((G + ':_markup_escape', '&<>'), (M_ + ':_attribute_escape', '&<>"')):
        n = t.split(':')[1]
        out += [Contract(n + '(text + character)', t, setup_esc, post_esc(t, which), env=replacer), Contract(n + '(nothing)', t, setup_none, post_none, env=replacer), Contract(n + '(markup)', t, setup_html, post_html, env=env_html)]
    out.append(Contract('Tag._open', M_ + ':Tag._open', setup_open, post_open, env=env_tag))
    out.append(Contract('Tag.__call__', M_ + ':Tag.__call__', setup_call, post_call, env=env_call))
    return out
ASSUMPTIONS = ['attribute values and contents are text, None or an object (numbers are outside the domain)', 'the markup wrapper, the transformers and the sort key are arbitrary functions (transformers: contracts under C16)', 'unescaping inverts the entity map: a consequence of the character-wise contracts']
