"""C02: the text a scalar writes is read back as the same value."""
from common import *
import re
S_ = 'flatland.schema.scalars'
A = lambda c, st, n: c.E.comp(st, n)
PARTS = {'Date': 'year month day', 'Time': 'hour minute second', 'DateTime': 'year month day hour minute second'}
NEW = {'Date': 'datetime:date', 'Time': 'datetime:time', 'DateTime': 'datetime:datetime'}
RANGE = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59)}
WIDTH = {'year': 4}
ISO = {'Date': '%Y-%m-%d', 'Time': '%H:%M:%S', 'DateTime': '%Y-%m-%d %H:%M:%S'}
def part(E, n): return E.uf('dt_' + n, I, I)
def digs(E, n, r): return [E.uf('dt_%s_digit%d' % (n, k), I, I)(r) for k in range(WIDTH.get(n, 2))]
def iso(c, cls, r):
    """the ISO text of the value with reference r"""
    E = c.E; p = lambda n: [z3.StrFromCode(48 + d) for d in digs(E, n, r)]; L = lambda t: [z3.StringVal(t)]
    d = lambda: p('year') + L('-') + p('month') + L('-') + p('day'); t = lambda: p('hour') + L(':') + p('minute') + L(':') + p('second')
    return {'Date': d, 'Time': t, 'DateTime': lambda: d() + L(' ') + t()}[cls]()
def calendar(c, st, cls, r, write=False):
    """r is a value of the type: its parts are in range and constructing from them gives an equal value"""
    E = c.E; ns = PARTS[cls].split(); k = len(ns)
    c.valid = E.uf('calendar_ok', *([I] * k + [B])); c.make = E.uf('calendar_value', *([I] * k + [I]))
    for n in ns:
        lo, hi = RANGE[n]; ds = digs(E, n, r); v = z3.IntVal(0)
        x = part(E, n)(r); c.assume(st, z3.And(x >= lo, x <= hi))
        for k, d in enumerate(ds): v = v * 10 + d
        # its decimal digits: d = x / 10**k % 10 when writing, x = the sum of d * 10**k when reading; x < 10**w makes them the same
        if write: c.assume(st, z3.And([d == (x / 10 ** (len(ds) - 1 - k)) % 10 for k, d in enumerate(ds)]))
        else: c.assume(st, z3.And([x == v] + [z3.And(d >= 0, d <= 9) for d in ds]))
    xs = [part(E, n)(r) for n in ns]
    c.assume(st, z3.And(c.valid(*xs), c.make(*xs) == r, r > 0, E.uf('isinst_' + NEW[cls], I, B)(r)))
def setup_ser(cls):
    def setup(c, st):
        c.me = c.obj(st, 'element', S_ + ':' + cls); c.v = c.obj(st, 'value'); E = c.E
        pin(c, st, c.me, S_ + ':' + cls, 'type_', 'format'); calendar(c, st, cls, E.ref(c.v), True); return [c.me, c.v]
    return setup
def env_ser(cls):
    def env(E, c):
        for n in PARTS[cls].split():
            def h(E, st, o, n=n): yield st, V.int(part(E, n)(E.ref(o)))
            E.iface[n] = h
    return env
def post_ser(cls):
    def post(c, st, res):
        if isexc(res): return [('no exception', False)]
        return [('the ISO text %s of the value' % ISO[cls], c.E.to_v(res) == V.str(z3.simplify(z3.Concat(iso(c, cls, c.E.ref(c.v))))))]
    return post
# ---- reading the ISO text back: the regular expression is matched piece by piece (fixed widths: digits and literals)
import re._parser as sre
import re._constants as sc
def shape(pattern):
    """a pattern that is ^, literals and groups of a fixed number of digits, optionally $: [(group or None, char or None)]"""
    out = []
    def go(items, grp):
        for op, a in items:
            if op is sc.AT: continue
            elif op is sc.LITERAL: out.append((grp, chr(a)))
            elif op is sc.MAX_REPEAT and a[0] == a[1] and len(a[2]) == 1 and a[2][0][0] is sc.IN and list(a[2][0][1]) == [(sc.CATEGORY, sc.CATEGORY_DIGIT)]: out.extend([(grp, None)] * a[0])
            elif op is sc.IN and list(a) == [(sc.CATEGORY, sc.CATEGORY_DIGIT)]: out.append((grp, None))
            elif op is sc.SUBPATTERN: go(a[3], names[a[0]])
            else: return out.append(False)
    p = sre.parse(pattern); names = {v: k for k, v in p.state.groupdict.items()}
    for i in range(1, 20): names.setdefault(i, str(i))
    go(p, None)
    return None if False in out else out
def pieces(t):
    t = z3.simplify(t); out = []
    def go(x):
        if z3.is_string_value(x): out.extend(z3.StringVal(ch) for ch in x.as_string())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for y in x.children(): go(y)
        else: out.append(x)
    go(t); return out
def env_read(cls):
    def env(E, c):
        E.uf('str_strip', S, S)
        def match(E, st, o, args, kw):
            t = E.strof(args[0]); t = c.text if E.implied(st, t == c.text) else t; sh = shape(o.pattern); ps = pieces(t)
            if sh is None or len(sh) != len(ps): raise Unsupported('pattern %r' % o.pattern)
            conds, groups = [], {}
            for (g, ch), x in zip(sh, ps):
                if ch is not None: conds.append(x == z3.StringVal(ch))
                else: code = z3.StrToCode(x); conds.append(z3.And(code >= 48, code <= 57))
                if g: groups.setdefault(g, []).append(x)
            for s, b in E.split(st, z3.And(conds)):
                if not b: yield s, None; continue
                s = s.clone(); m = E.alloc(s); c.groups[z3.simplify(E.ref(m)).as_long()] = groups; yield s, m
        c.groups = {}
        def group(E, st, o, args, kw):
            n = z3.simplify(V.s(E.to_v(args[0]))).as_string(); gs = c.groups[z3.simplify(E.ref(o)).as_long()]
            if n not in gs: yield st, Exc('IndexError'); return
            t = V.str(z3.Concat(gs[n]) if len(gs[n]) > 1 else gs[n][0]); v = z3.IntVal(0)
            for x in gs[n]: v = v * 10 + (z3.StrToCode(x) - 48)
            s = st.clone(); s.pc = s.pc + (E.uf('int_ok', V, B)(t), E.uf('int_of', V, I)(t) == v); yield s, t    # decimal digits spell a number
        E.ext['re.match'] = match; E.icall['group'] = group
        def truth(E, st, v):
            if E.ctor(v) == 'obj' and z3.is_int_value(z3.simplify(V.r(v))): yield st, True; return
            for x in E.split(st, E.truth(st, v)): yield x
        E.iface['truth'] = truth
        def new(E, st, args, kw):
            k = len(PARTS[cls].split())
            if len(args) != k: yield st, Exc('TypeError'); return
            xs = [V.i(E.to_v(a)) for a in args]
            for s, b in E.split(st, c.valid(*xs)): yield s, (V.obj(c.make(*xs)) if b else Exc('ValueError'))
        E.ext['new:' + NEW[cls]] = new
    return env
def setup_read(cls):
    def setup(c, st):
        E = c.E; c.me = c.obj(st, 'element', S_ + ':' + cls); c.v = c.obj(st, 'value'); r = E.ref(c.v)
        pin(c, st, c.me, S_ + ':' + cls, 'type_', 'regex', 'used'); calendar(c, st, cls, r)
        t = z3.simplify(z3.Concat(iso(c, cls, r))); c.text = t; c.x = V.str(t)
        c.assume(st, E.uf('str_strip', S, S)(t) == t)          # it begins and ends with a digit
        return [c.me, c.x]
    return setup
def post_read(c, st, res):
    if isexc(res): return [('the canonical text is accepted (not %s)' % res.cls, False)]
    return [('and reads back as the same value', c.E.to_v(res) == c.v)]
def lemma(c, st, res):
    x, ds = z3.Int('x!'), [z3.Int('d!%d' % k) for k in range(4)]; out = []
    for w in (2, 4):
        v = z3.IntVal(0)
        for k in range(w): v = v * 10 + (x / 10 ** (w - 1 - k)) % 10
        out.append(('the digits of a number below 10**%d add up to it' % w, z3.Implies(z3.And(x >= 0, x < 10 ** w), x == v)))
    return out
# ---- text, numbers, booleans, enumerated values, and Scalar.set on the canonical text
import C01
def strip(c): return c.E.uf('str_strip', S, S)
def env_text(E, c):
    C01.env_text(E)
    E.ext['new:local:text'] = lambda E, st, args, kw: E.ext['unicode'](E, st, args, kw)
def setup_sser(c, st):
    c.me = c.obj(st, 'element', S_ + ':String'); c.x = c.sym('value'); c.assume(st, z3.Or(c.x == NONE, V.is_str(c.x))); return [c.me, c.x]
def post_sser(c, st, res):
    if isexc(res): return [('no exception', False)]
    s = T(c.E, st, A(c, st, 'f.strip')[c.E.ref(c.me)]); t = V.s(c.x)
    return [('the text, stripped as asked, empty for none', c.E.to_v(res) == V.str(z3.If(c.x == NONE, z3.StringVal(''), z3.If(s, strip(c)(t), t))))]
def setup_sread(c, st):
    c.me = c.obj(st, 'element', S_ + ':String'); t = c.sym('text', S); s = T(c.E, st, A(c, st, 'f.strip')[c.E.ref(c.me)])
    c.assume(st, strip(c)(strip(c)(t)) == strip(c)(t))
    c.v = c.x = V.str(z3.If(s, strip(c)(t), t)); return [c.me, c.x]
def decimal(i): return z3.If(i < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-i)), z3.IntToStr(i))
def setup_nread(c, st):
    E = c.E; c.me = c.obj(st, 'element', S_ + ':Integer'); i = c.sym('number', I); pin(c, st, c.me, S_ + ':Integer', 'type_')
    t = decimal(i); c.v, c.x = V.int(i), V.str(t)
    c.assume(st, z3.And(strip(c)(t) == t, E.uf('int_ok', V, B)(c.x), E.uf('int_of', V, I)(c.x) == i))      # a decimal numeral spells its number
    c.assume(st, z3.Or(i >= 0, T(E, st, A(c, st, 'f.signed')[E.ref(c.me)])))                              # the value was accepted by this field
    return [c.me, c.x]
def setup_bread(value):
    def setup(c, st):
        c.me = c.obj(st, 'element', S_ + ':Boolean'); pin(c, st, c.me, S_ + ':Boolean', 'true', 'false', 'true_synonyms', 'false_synonyms')
        c.v = bv(value); c.x = z3.simplify(A(c, st, 'f.true' if value else 'f.false')[c.E.ref(c.me)]); return [c.me, c.x]
    return setup
def setup_cread(c, st):
    E = c.E; c.me = c.obj(st, 'element'); c.v = c.sym('value'); c.assume(st, V.is_obj(E.uf('attr_child_schema', I, V)(E.ref(c.me))))
    t = c.sym('text', S); c.x = V.str(t)
    c.assume(st, z3.And(c.ok(c.x), c.ad(c.x) == c.v, T(E, st, c.val(c.me, c.v)))); return [c.me, c.x]     # the child type reads its own text back; the value was accepted
def setup_again(c, st):
    E = c.E; C01.setup_set(c, st); x = c.sym('first'); c.v = c.ad(x); c.x = V.str(c.ser(c.v))
    c.assume(st, z3.And(c.ok(x), c.v != NONE, c.ok(c.x), c.ad(c.x) == c.v))
    return [c.me, c.x]
def post_again(c, st, res):
    if isexc(res): return [('no exception', False)]
    f = lambda n: A(c, st, 'f.' + n)[c.E.ref(c.me)]
    return [('the canonical text is accepted', c.E.to_v(res) == TRUE), ('equal value', f('value') == c.v), ('identical text', f('u') == c.x)]
def contracts(P):
    return [Contract('digits lemma', S_ + ':Temporal.serialize', setup_ser('Date'), lemma, env=env_ser('Date'), doc='the two ways of giving the digits of a number below 10**w agree'),
        ] + [Contract(k + '.serialize', S_ + ':Temporal.serialize', setup_ser(k), post_ser(k), env=env_ser(k)) for k in PARTS] + [
        Contract(k + '.adapt(text)', S_ + ':Temporal.adapt', setup_read(k), post_read, env=env_read(k)) for k in PARTS] + [
        Contract('String.serialize', S_ + ':String.serialize', setup_sser, post_sser, env=env_text),
        Contract('String.adapt(text)', S_ + ':String.adapt', setup_sread, post_read, env=env_text),
        Contract('Integer.adapt(text)', S_ + ':Number.adapt', setup_nread, post_read),
        Contract('Boolean.adapt(true text)', S_ + ':Boolean.adapt', setup_bread(True), post_read),
        Contract('Boolean.adapt(false text)', S_ + ':Boolean.adapt', setup_bread(False), post_read),
        Contract('Constrained.adapt(text)', S_ + ':Constrained.adapt', setup_cread, post_read, env=C01.env_con),
        Contract('Scalar.set(text)', S_ + ':Scalar.set', setup_again, post_again, env=C01.env_set, doc='given the read-back contracts of adapt and serialize above'),
    ]
ASSUMPTIONS = ['stripping text twice strips it once; canonical ISO texts and decimal numerals carry no outer blanks', 'int() of a decimal numeral is its number; constructing a date/time from the parts of a value gives an equal value',
               'regular expressions of fixed-width digit groups and literals match as such (the pattern is read from the current source)']
