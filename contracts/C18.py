"""C18: the built-in validators decide exactly their condition; note_error is taken by its own contract (C19)."""
from common import *
VS, VC = 'flatland.validation.scalars', 'flatland.validation.containers'
A = lambda c, st, n: c.E.comp(st, n)
def env(E, c):
    fields(E, 'u', 'value')
    def note(E, st, b, f):
        st = st.clone(); rec(E, st, 'note', b['element'], b['state']); yield st, False
    E.contracts['flatland.validation.base:Validator.note_error'] = note
    E.iface['contains'] = lambda E, st, o, x: iter([(st, V.bool(E.uf('member', V, V, B)(E.to_v(o), E.to_v(x))))])
def setup(cls, *more, vint=False):
    def f(c, st):
        E = c.E; c.me = c.obj(st, 'validator', cls); c.el = c.obj(st, 'element'); c.state = c.sym('state')
        trace(c, st, 'note', 2); c.distinct(st, c.me, c.el)
        r = E.ref(c.el); c.u = c.sym('text', S); E.setf(st, r, 'u', V.str(c.u)); c.value = c.sym('value'); E.setf(st, r, 'value', c.value); c.assume(st, c.value != ABSENT)
        if vint: c.assume(st, V.is_int(c.value))
        c.p = {}
        for nm in more:
            c.p[nm] = c.sym(nm, I); E.setf(st, E.ref(c.me), nm, V.int(c.p[nm]))
        return [c.me, c.el, c.state]
    return f
def judged(c, st, res, cond):
    if isexc(res): return [('no exception', False)]
    E = c.E; n = cnt(E, st, 'note')
    out = [('True exactly when the condition holds, else False', E.to_v(res) == V.bool(cond)),
           ('one message on the element exactly when it does not hold', z3.If(cond, n == 0, z3.And(n == 1, col(E, st, 'note', 0, 0) == c.el, col(E, st, 'note', 1, 0) == c.state)))]
    return out + unchanged(c, st, 'f.u', 'f.value')
def sc(name, cond, more=(), vint=False):
    cls = VS + ':' + name
    return Contract(name, cls + '.validate', setup(cls, *more, vint=vint), lambda c, st, res: judged(c, st, res, cond(c, st)), env=env)
def N(c): return z3.Length(c.u)
def truth(c, st): return T(c.E, st, c.value)
# ---- ordering and range
def setup_between(c, st):
    a = setup(VS + ':ValueBetween', 'minimum', 'maximum', vint=True)(c, st); c.inc = c.sym('inclusive'); c.E.setf(st, c.E.ref(c.me), 'inclusive', c.inc); c.assume(st, V.is_bool(c.inc)); return a
def post_between(c, st, res):
    v, lo, hi = V.i(c.value), c.p['minimum'], c.p['maximum']
    return judged(c, st, res, z3.If(c.inc == TRUE, z3.And(lo <= v, v <= hi), z3.And(lo < v, v < hi)))
# ---- member counts
def env_count(E, c):
    env(E, c); frozen(E, 'member_schema', 'label')
    E.iface['len'] = lambda E, st, o: iter([(st, V.int(E.uf('count', V, I)(E.to_v(o))))])
def setup_count(name, *more):
    def f(c, st):
        a = setup(VC + ':' + name, *more)(c, st); E = c.E; ms = E.uf('attr_member_schema', I, V)(E.ref(c.el))
        c.n = E.uf('count', V, I)(c.el); c.assume(st, z3.And(c.n >= 0, V.is_obj(ms), V.r(ms) > 0, E.uf('hasattr_member_schema', V, B)(c.el))); return a
    return f
# ---- membership
def setup_in(c, st):
    a = setup(VS + ':ValueIn')(c, st); c.opts = c.obj(st, 'valid_options'); c.E.setf(st, c.E.ref(c.me), 'valid_options', c.opts); return a
# ---- no duplicates: no earlier sibling that compares equal
def env_dup(E, c):
    env(E, c); frozen(E, 'parent', 'label')
    E.iface['children'] = lambda E, st, o: iter([(st, SeqVal(E.uf('n_children', V, I)(E.to_v(o)), E.uf('children', V, AV)(E.to_v(o))))])
    c.same = E.uf('compares_equal', V, V, V)
    def call(E, st, f, args, kw):
        yield st, c.same(E.to_v(args[0]), E.to_v(args[1]))
    E.extcall = call
def setup_dup(c, st):
    a = setup(VC + ':NotDuplicated')(c, st); E = c.E
    par = lambda o: E.uf('attr_parent', I, V)(V.r(o)); obj = lambda v: z3.And(V.is_obj(v), V.r(v) > 0)
    slot = E.uf('isinst_flatland.schema.base:Slot', I, B)
    p1 = par(c.el); c.assume(st, z3.And(obj(p1), obj(par(p1)))); E.setf(st, E.ref(c.me), 'comparator', c.obj(st, 'comparator'))
    c.cont = z3.If(slot(V.r(p1)), par(p1), p1)
    c.n, c.ch = E.uf('n_children', V, I)(c.cont), E.uf('children', V, AV)(c.cont); c.k = c.sym('position', I); j = z3.Int('j!')
    c.assume(st, z3.And(c.k >= 0, c.k < c.n, z3.Select(c.ch, c.k) == c.el, FA(j, z3.Implies(z3.And(0 <= j, j < c.k), z3.Select(c.ch, j) != c.el), z3.Select(c.ch, j)),
        FA(j, z3.Implies(z3.And(0 <= j, j < c.n), obj(z3.Select(c.ch, j))), z3.Select(c.ch, j))))
    return a
def dup(c, st, k):
    j = z3.Int('j!d'); return z3.Not(FA(j, z3.Implies(z3.And(0 <= j, j < k), z3.Not(T(c.E, st, c.same(c.el, z3.Select(c.ch, j))))), z3.Select(c.ch, j)))
def inv_dup(L):
    c = L.c; v = L.var('valid')
    return [('not yet at the element', L.i <= c.k), ('valid so far exactly when no earlier sibling equals it', v == V.bool(z3.Not(dup(c, L.st, L.i)))), ('no message yet', cnt(c.E, L.st, 'note') == 0)]
def post_dup(c, st, res): return judged(c, st, res, z3.Not(dup(c, st, c.k)))
# ---- fields that must agree
def env_map(E, c):
    env(E, c); frozen(E, 'label'); c.found, c.tf = E.uf('found', V, V, V), E.uf('transformed', V, V)
    def find(E, st, o, args, kw):
        v = c.found(E.to_v(o), E.to_v(args[0])); st = st.clone(); st.pc = st.pc + (V.is_obj(v), V.r(v) > 0)
        yield st, (v if z3.is_true(z3.simplify(T(E, st, kw.get('single', args[1] if len(args) > 1 else False)))) else Exc('OtherException'))
    E.icall['find'] = find
    E.extcall = lambda E, st, f, args, kw: iter([(st, c.tf(E.to_v(args[0])))])
    E.ext['str.join'] = lambda E, st, o, args, kw: iter([(st, V.str(E.fresh(S, 'labels')))])
def setup_map(c, st):
    a = setup(VS + ':MapEqual')(c, st); E = c.E; c.paths = c.list(st, 'paths'); r = E.ref(c.paths); c.distinct(st, c.me, c.el, c.paths)
    E.setf(st, E.ref(c.me), 'field_paths', c.paths); E.setf(st, E.ref(c.me), 'transform', c.obj(st, 'transform'))
    c.n, c.ps = E.llen(st, r), E.larr(st, r); c.assume(st, c.n >= 2)
    p = z3.Const('p!', V); c.assume(st, FA(p, z3.And(V.is_obj(c.found(c.el, p)), V.r(c.found(c.el, p)) > 0), c.found(c.el, p))); return a
def agree(c, st, k):
    j = z3.Int('j!a'); v = lambda i: c.tf(c.found(c.el, z3.Select(c.ps, i)))
    return FA(j, z3.Implies(z3.And(1 <= j, j < k), c.E.eq(st, v(j), v(z3.IntVal(0)))), z3.Select(c.ps, j))
def inv_find(L):
    c, E = L.c, L.E; r = E.ref(L.var('elements')); j = z3.Int('j!f')
    return [('elements found so far', z3.And(E.llen(L.st, r) == L.i, FA(j, z3.Implies(z3.And(0 <= j, j < L.i), E.larr(L.st, r)[j] == c.found(c.el, z3.Select(c.ps, j))), z3.Select(E.larr(L.st, r), j)))), ('no message yet', cnt(E, L.st, 'note') == 0)]
def inv_eq(L): return [('all equal so far', agree(L.c, L.st, L.i + 1)), ('no message yet', cnt(L.E, L.st, 'note') == 0)]
def contracts(P):
    out = [
        sc('Present', lambda c, st: c.u != z3.StringVal('')),
        sc('IsTrue', truth), sc('IsFalse', lambda c, st: z3.Not(truth(c, st))),
        sc('Converted', lambda c, st: c.value != NONE),
        sc('ShorterThan', lambda c, st: N(c) <= c.p['maxlength'], ['maxlength']),
        sc('LongerThan', lambda c, st: N(c) >= c.p['minlength'], ['minlength']),
        sc('LengthBetween', lambda c, st: z3.And(c.p['minlength'] <= N(c), N(c) <= c.p['maxlength']), ['minlength', 'maxlength']),
        sc('ValueLessThan', lambda c, st: V.i(c.value) < c.p['boundary'], ['boundary'], vint=True),
        sc('ValueAtMost', lambda c, st: V.i(c.value) <= c.p['maximum'], ['maximum'], vint=True),
        sc('ValueGreaterThan', lambda c, st: V.i(c.value) > c.p['boundary'], ['boundary'], vint=True),
        sc('ValueAtLeast', lambda c, st: V.i(c.value) >= c.p['minimum'], ['minimum'], vint=True),
        Contract('ValueBetween', VS + ':ValueBetween.validate', setup_between, post_between, env=env),
        Contract('ValueIn', VS + ':ValueIn.validate', setup_in, lambda c, st, r: judged(c, st, r, c.E.uf('member', V, V, B)(c.opts, c.value)), env=env),
        Contract('NotDuplicated', VC + ':NotDuplicated.validate', setup_dup, post_dup, env=env_dup, loops=[LoopSpec('siblings', inv_dup, kind='For')]),
        Contract('MapEqual', VS + ':MapEqual.validate', setup_map, lambda c, st, r: judged(c, st, r, agree(c, st, c.n)), env=env_map,
                 loops=[LoopSpec('fields', inv_find, kind='Collect'), LoopSpec('compare', inv_eq)]),
        Contract('HasAtLeast', VC + ':HasAtLeast.validate', setup_count('HasAtLeast', 'minimum'), lambda c, st, r: judged(c, st, r, c.n >= c.p['minimum']), env=env_count),
        Contract('HasAtMost', VC + ':HasAtMost.validate', setup_count('HasAtMost', 'maximum'), lambda c, st, r: judged(c, st, r, c.n <= c.p['maximum']), env=env_count),
        Contract('HasBetween', VC + ':HasBetween.validate', setup_count('HasBetween', 'minimum', 'maximum'), lambda c, st, r: judged(c, st, r, z3.And(c.p['minimum'] <= c.n, c.n <= c.p['maximum'])), env=env_count),
    ]
    return out
ASSUMPTIONS = []
