"""C01: Scalar.set and the adapt/serialize functions of the scalar types."""
from common import *
S_ = 'flatland.schema.scalars'
A = lambda c, st, n: c.E.comp(st, n)

# ---- Scalar.set against abstract adapt/serialize
def uni(E): return E.uf('uni', V, S)
def env_text(E):
    """unicode(x): the text of x; for objects with undecodable text UnicodeDecodeError, unless errors='replace'"""
    def text(E, st, args, kw):
        x = E.to_v(args[0])
        if E.isstr(st, x): yield st, x; return
        t = V.str(z3.If(V.is_str(x), V.s(x), uni(E)(x)))
        if E.from_v(kw.get('errors', 'strict')) == 'replace': yield st, V.str(E.uf('uni_replace', V, S)(x)); return
        for s, b in E.split(st, z3.And(V.is_obj(x), E.uf('undecodable', V, B)(x))):
            yield s, (Exc('UnicodeDecodeError') if b else t)
    for n in ('unicode', 'six.text_type', '__builtin__:unicode'): E.ext[n] = text
def env_set(E, c):
    env_text(E); fields(E, 'raw', 'value', 'u')
    ok, ad, ser = E.uf('adapts', V, B), E.uf('adapted', V, V), E.uf('serialized', V, S)
    c.ok, c.ad, c.ser = ok, ad, ser
    def adapt(E, st, o, args, kw):
        st = st.clone(); rec(E, st, 'adapt', o, args[0]); a = E.to_v(args[0])
        for s, b in E.split(st, ok(a)): yield s, (ad(a) if b else Exc('AdaptationError'))
    def serialize(E, st, o, args, kw):
        st = st.clone(); rec(E, st, 'ser', o, args[0]); yield st, V.str(ser(E.to_v(args[0])))
    E.icall['adapt'], E.icall['serialize'] = adapt, serialize
def setup_set(c, st):
    c.me, c.x = c.obj(st, 'element'), c.sym('input')
    trace(c, st, 'adapt', 2); trace(c, st, 'ser', 2)
    for f in ('raw', 'value', 'u'): c.E.comp(st, 'f.' + f)
    return [c.me, c.x]
def post_set(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; r = E.to_v(res); f = lambda n: A(c, st, 'f.' + n)[E.ref(c.me)]; x = c.x
    text = z3.If(V.is_str(x), x, V.str(z3.If(z3.And(V.is_obj(x), E.uf('undecodable', V, B)(x)), E.uf('uni_replace', V, S)(x), uni(E)(x))))
    return [('the input is recorded as the raw value', f('raw') == x),
            ('returns True exactly when the input adapts', r == V.bool(c.ok(x))),
            ('native value: the adapted input, or none', f('value') == z3.If(c.ok(x), c.ad(x), NONE)),
            ('text: the serialized value, empty for none; on failure the text of the input', f('u') ==
                z3.If(c.ok(x), z3.If(c.ad(x) == NONE, V.str(z3.StringVal('')), V.str(c.ser(c.ad(x)))), z3.If(x == NONE, V.str(z3.StringVal('')), text))),
            ] + [framed(c, st, 'f.' + n, E.ref(c.me)) for n in ('raw', 'value', 'u')]
# ---- adapt of each type: a value of the type, None, or AdaptationError and nothing else
def only(c, res, f):
    if isexc(res): return [('raises AdaptationError only (not %s)' % res.cls, z3.BoolVal(res.cls == 'AdaptationError'))] + f(None)
    return f(c.E.to_v(res))
def scalar(c, st, cls):
    c.me = c.obj(st, 'element', S_ + ':' + cls); c.x = c.sym('input'); return [c.me, c.x]
def env_string(E, c): env_text(E)
def post_string(c, st, res):
    E = c.E; x = c.x; strip = T(E, st, A(c, st, 'f.strip')[E.ref(c.me)]); bad = z3.And(V.is_obj(x), E.uf('undecodable', V, B)(x))
    t = z3.If(V.is_str(x), V.s(x), uni(E)(x))
    return only(c, res, lambda v: [('fails only for undecodable input', bad)] if v is None else
        [('None stays None, anything else becomes its text, stripped as asked', z3.And(z3.Not(z3.And(x != NONE, bad)),
            v == z3.If(x == NONE, NONE, V.str(z3.If(strip, E.uf('str_strip', S, S)(t), t)))))])
def env_number(E, c):
    frozen(E, 'type_', 'signed')
    c.ok, c.nat = E.uf('type_accepts', V, B), E.uf('type_of', V, V)
    c.neg = lambda v: T(E, c.st0, list(E.compare(c.st0, 'Lt', v, 0, None))[0][1])
    def call(E, st, f, args, kw):
        x = E.to_v(args[0]); st = st.clone()
        for s, b in E.split(st, c.ok(x)):
            if b: yield s, c.nat(x)
            else:
                for e in ('ValueError', 'TypeError', 'OverflowError', 'InvalidOperation', 'ArithmeticError'): yield s, Exc(e)
    E.extcall = call
def setup_number(c, st):
    c.me, c.x = c.obj(st, 'element'), c.sym('input'); return [c.me, c.x]
def post_number(c, st, res):
    E = c.E; x = c.x; arg = z3.If(V.is_str(x), V.str(E.uf('str_strip', S, S)(V.s(x))), x)
    signed = T(E, st, E.uf('attr_signed', I, V)(E.ref(c.me)))
    good = z3.And(c.ok(arg), z3.Or(signed, z3.Not(c.neg(c.nat(arg)))))
    return only(c, res, lambda v: [('fails only when the type refuses it or the sign is wrong', z3.And(x != NONE, z3.Not(good)))] if v is None else
        [('the type applied to the (stripped) input, checked for sign; None stays None', z3.If(x == NONE, v == NONE, z3.And(good, v == c.nat(arg))))])
def env_bool(E, c):
    c.inT, c.inF = E.uf('in_true_synonyms', I, V, B), E.uf('in_false_synonyms', I, V, B)
    frozen(E, 'true', 'false')
    for nm, f in (('true_synonyms', c.inT), ('false_synonyms', c.inF)):
        def h(E, st, o, nm=nm, f=f):
            yield st, E.uf('attr_' + nm, I, V)(E.ref(o))
        E.iface[nm] = h
    def cont(E, st, o, x):
        for nm, f in (('true_synonyms', c.inT), ('false_synonyms', c.inF)):
            if z3.simplify(o == E.uf('attr_' + nm, I, V)(E.ref(c.me))).eq(z3.BoolVal(True)): yield st, V.bool(f(E.ref(c.me), E.to_v(x))); return
        raise Unsupported('membership')
    E.iface['contains'] = cont
def setup_bool(c, st):
    c.me, c.x = c.obj(st, 'element'), c.sym('input'); E = c.E; r = E.ref(c.me)
    for n in ('true', 'false'): c.assume(st, V.is_str(E.uf('attr_' + n, I, V)(r)))
    for n in ('true_synonyms', 'false_synonyms'): c.assume(st, V.is_obj(E.uf('attr_' + n, I, V)(r)))
    c.assume(st, E.uf('attr_true_synonyms', I, V)(r) != E.uf('attr_false_synonyms', I, V)(r))
    return [c.me, c.x]
def post_bool(c, st, res):
    E = c.E; x = c.x; r = E.ref(c.me); tr, fa = E.uf('attr_true', I, V)(r), E.uf('attr_false', I, V)(r)
    yes = z3.Or(x == tr, c.inT(r, x)); no = z3.Or(x == fa, c.inF(r, x))
    return only(c, res, lambda v: [('fails only for text that is neither', z3.And(V.is_str(x), z3.Not(yes), z3.Not(no)))] if v is None else
        [('text by the two word lists (true first), anything else by its truth', v == z3.If(V.is_str(x), V.bool(yes), V.bool(T(E, st, x)))), ('decided', z3.Or(z3.Not(V.is_str(x)), yes, no))])
def post_bser(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; r = E.ref(c.me); return [('the true or the false text', E.to_v(res) == z3.If(T(E, st, c.x), E.uf('attr_true', I, V)(r), E.uf('attr_false', I, V)(r)))]
def env_con(E, c):
    frozen(E, 'child_schema')
    c.ok, c.ad, c.val = E.uf('child_adapts', V, B), E.uf('child_adapted', V, V), E.uf('valid_value', V, V, V)
    def adapt(E, st, o, args, kw):
        a = E.to_v(args[0])
        for s, b in E.split(st, c.ok(a)): yield s, (c.ad(a) if b else Exc('AdaptationError'))
    def valid(E, st, o, args, kw): yield st, c.val(E.to_v(args[0]), E.to_v(args[1]))
    E.icall['adapt'], E.icall['valid_value'] = adapt, valid
def post_con(c, st, res):
    E = c.E; x = c.x; good = z3.And(c.ok(x), T(E, st, c.val(c.me, c.ad(x))))
    return only(c, res, lambda v: [('fails only if the child type or valid_value refuses it', z3.Not(good))] if v is None else [('the value of the child type, accepted by valid_value', z3.And(good, v == c.ad(x)))])
def plain(c, st):
    c.me, c.x = c.obj(st, 'element'), c.sym('input'); c.assume(st, V.is_obj(c.E.uf('attr_child_schema', I, V)(c.E.ref(c.me)))); return [c.me, c.x]

# ---- dates and times
PARTS = {'Date': 'year month day', 'Time': 'hour minute second', 'DateTime': 'year month day hour minute second'}
NEW = {'Date': 'datetime:date', 'Time': 'datetime:time', 'DateTime': 'datetime:datetime'}
def env_temporal(cls):
    def env(E, c):
        c.ok, c.grp = E.uf('matches', S, B), lambda n, t: E.uf('group_' + n, S, S)(t)
        k = len(PARTS[cls].split())
        c.valid = E.uf('calendar_ok', *([I] * k + [B])); c.make = E.uf('calendar_value', *([I] * k + [I]))
        def match(E, st, o, args, kw):
            t = E.strof(args[0])
            for s, b in E.split(st, c.ok(t)):
                if not b: yield s, None; continue
                s = s.clone(); m = E.alloc(s); E.setf(s, E.ref(m), 'matched_text', V.str(t)); yield s, m
        def group(E, st, o, args, kw):
            n = z3.simplify(V.s(E.to_v(args[0]))); n = n.as_string() if z3.is_string_value(n) else None
            if n not in PARTS[cls].split(): yield st, Exc('IndexError'); return
            yield st, V.str(c.grp(n, V.s(E.getf(st, E.ref(o), 'matched_text'))))
        E.ext['re.match'] = match; E.icall['group'] = group
        def truth(E, st, v):
            if E.ctor(v) == 'obj' and z3.is_int_value(z3.simplify(V.r(v))): yield st, True; return      # the match object
            for x in E.split(st, E.truth(st, v)): yield x
        E.iface['truth'] = truth
        def new(E, st, args, kw):
            if len(args) != k: yield st, Exc('TypeError'); return
            xs = [V.i(E.to_v(a)) for a in args]
            for s, b in E.split(st, c.valid(*xs)): yield s, (V.obj(c.make(*xs)) if b else Exc('ValueError'))
        E.ext['new:' + NEW[cls]] = new
    return env
def setup_temporal(cls):
    def setup(c, st):
        scalar(c, st, cls); E = c.E; pin(c, st, c.me, S_ + ':' + cls, 'type_', 'regex', 'used')
        a = [z3.Int('q%d' % i) for i in range(len(PARTS[cls].split()))]
        c.assume(st, z3.ForAll(a, c.make(*a) > 0, patterns=[c.make(*a)]))
        return [c.me, c.x]
    return setup
def post_temporal(cls):
    def post(c, st, res):
        E, x = c.E, c.x; strip = T(E, st, A(c, st, 'f.strip')[E.ref(c.me)])
        t = z3.If(strip, E.uf('str_strip', S, S)(V.s(x)), V.s(x))
        gs = [V.str(c.grp(n, t)) for n in PARTS[cls].split()]
        iok, iof = E.uf('int_ok', V, B), E.uf('int_of', V, I)
        xs = [iof(g) for g in gs]
        good = z3.And([V.is_str(x), c.ok(t)] + [iok(g) for g in gs] + [c.valid(*xs)])
        native = z3.And(V.is_obj(x), E.uf('isinst_' + NEW[cls], I, B)(V.r(x)))
        return only(c, res, lambda v: [('fails only for input that is neither none, of the type, nor text that spells one', z3.And(x != NONE, z3.Not(native), z3.Not(good)))] if v is None else
            [('none, the value itself, or the value the text spells', z3.If(z3.Or(x == NONE, native), v == x, z3.And(good, v == V.obj(c.make(*xs)))))])
    return post
def env_dec(E, c):
    c.ok, c.nat, c.sn = E.uf('number_adapts', V, B), E.uf('number_adapted', V, V), E.uf('is_snan', V, B)
    def num(E, st, b, f):
        x = E.to_v(b['value'])
        for s, t in E.split(st, c.ok(x)):
            if not t: yield s, Exc('AdaptationError'); continue
            v = c.nat(x); s.pc = s.pc + (z3.Or(v == NONE, V.is_obj(v)),); yield s, v
    E.contracts[S_ + ':Number.adapt'] = num
    E.icall['is_snan'] = lambda E, st, o, args, kw: iter([(st, V.bool(c.sn(E.to_v(o))))])
def post_dec(c, st, res):
    x = c.x; snan = z3.And(c.nat(x) != NONE, c.sn(c.nat(x)))
    return only(c, res, lambda v: [('fails only when the number is refused or signals', z3.Or(z3.Not(c.ok(x)), snan))] if v is None else [('the number, never a signaling one', z3.And(c.ok(x), z3.Not(snan), v == c.nat(x)))])
def env_enum(E, c):
    frozen(E, 'valid_values'); c.inV = E.uf('in_valid_values', V, V, B)
    E.iface['contains'] = lambda E, st, o, x: iter([(st, V.bool(c.inV(E.to_v(o), E.to_v(x))))])
def setup_enum(c, st):
    c.me, c.el, c.x = c.obj(st, 'self'), c.obj(st, 'element'), c.sym('input'); c.assume(st, V.is_obj(c.E.uf('attr_valid_values', I, V)(c.E.ref(c.me))))
    return [c.me, c.el, c.x]
def post_enum(c, st, res):
    if isexc(res): return [('no exception', False)]
    return [('accepted exactly when it is one of the values', T(c.E, st, res) == c.inV(c.E.uf('attr_valid_values', I, V)(c.E.ref(c.me)), c.x))]
def env_child(E, c):
    frozen(E, 'child_schema'); c.ser = E.uf('child_text', V, S)
    E.icall['serialize'] = lambda E, st, o, args, kw: iter([(st, V.str(c.ser(E.to_v(args[0]))))])
def post_child(c, st, res):
    if isexc(res): return [('no exception', False)]
    return [('the text the child type gives it', c.E.to_v(res) == V.str(c.ser(c.x)))]
def post_nser(cls):
    def post(c, st, res):
        if isexc(res): return [('no exception', False)]
        x = c.x; i = V.i(x); dec = z3.If(i < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-i)), z3.IntToStr(i))
        return [('an integer is written in decimal, text as it is', c.E.to_v(res) == V.str(z3.If(V.is_int(x), dec, V.s(x))))]
    return post
def setup_nser(cls):
    def setup(c, st):
        scalar(c, st, cls); pin(c, st, c.me, S_ + ':' + cls, 'type_', 'format'); c.assume(st, z3.Or(V.is_int(c.x), V.is_str(c.x))); return [c.me, c.x]
    return setup
def contracts(P):
    return [
        Contract('Scalar.set', S_ + ':Scalar.set', setup_set, post_set, env=env_set, doc='raw, value and text in tandem, for every input and every adapt/serialize'),
        Contract('String.adapt', S_ + ':String.adapt', lambda c, st: scalar(c, st, 'String'), post_string, env=env_string),
        Contract('Number.adapt', S_ + ':Number.adapt', setup_number, post_number, env=env_number),
        Contract('Boolean.adapt', S_ + ':Boolean.adapt', setup_bool, post_bool, env=env_bool),
        Contract('Boolean.serialize', S_ + ':Boolean.serialize', setup_bool, post_bser, env=env_bool),
        Contract('Constrained.adapt', S_ + ':Constrained.adapt', plain, post_con, env=env_con),
        Contract('Decimal.adapt', S_ + ':Decimal.adapt', plain, post_dec, env=env_dec),
        Contract('Enum.valid_value', S_ + ':Enum.valid_value', setup_enum, post_enum, env=env_enum),
        Contract('Constrained.serialize', S_ + ':Constrained.serialize', plain, post_child, env=env_child),
        Contract('Integer.serialize', S_ + ':Number.serialize', setup_nser('Integer'), post_nser('Integer')),
    ] + [Contract(k + '.adapt', S_ + ':Temporal.adapt', setup_temporal(k), post_temporal(k), env=env_temporal(k)) for k in ('Date', 'Time', 'DateTime')]
ASSUMPTIONS = []
