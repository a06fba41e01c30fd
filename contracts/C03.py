"""C03: validate_element, and the _validate methods that call it."""
from common import *
B_ = 'flatland.schema.base'

def env(E, c):
    fields(E, 'is_empty', 'optional')
    sig = 'blinker.base:NamedSignal'
    def receivers(E, st, o): yield st, c.receivers
    def send(E, st, o, args, kw):
        st = st.clone()
        rec(E, st, 'send', args[0], kw.get('element', NONE), kw.get('state', NONE), kw.get('result', NONE)); yield st, None
    c.sigcls = E.P.globals[B_]['validator_validated'].get('cls')
    E.iface[c.sigcls + '.receivers'] = receivers
    E.iface[c.sigcls + '.send'] = lambda E, st, o: iter([(st, Meth(o, '@send'))])
    E.icall['send'] = send
    def call(E, st, f, args, kw):
        st = st.clone()
        r = E.fresh(V, 'verdict')
        st.pc = st.pc + (r != ABSENT, z3.Implies(V.is_obj(r), V.r(r) > 0))
        n0 = cnt(E, st, 'call')
        rec(E, st, 'call', f, args[0], args[1], r, V.int(z3.IntVal(len(args) + len(kw))), V.int(cnt(E, st, 'send')))
        # a validator may change the element it is given
        for nm in ('f.is_empty', 'f.optional'): E.setcomp(st, nm, E.fresh(AV, 'hv'), None)
        yield st, r
    E.extcall = call
    return
def setup(c, st, empty=None):
    E = c.E
    c.el = c.obj(st, 'element'); c.state = c.sym('state')
    c.receivers = c.sym('receivers'); c.assume(st, V.is_bool(c.receivers))
    trace(c, st, 'call', 6); trace(c, st, 'send', 4)
    c.vals = c.list(st, 'validators'); c.distinct(st, c.el, c.vals)
    c.n, c.arr = E.llen(st, E.ref(c.vals)), E.larr(st, E.ref(c.vals))
    j = z3.Int('j!v')
    c.assume(st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(c.arr[j]), V.r(c.arr[j]) > 0))))
    c.empty = T(E, st, E.getf(st, E.ref(c.el), 'is_empty')); c.opt = T(E, st, E.getf(st, E.ref(c.el), 'optional'))
    c.assume(st, z3.And(E.getf(st, E.ref(c.el), 'is_empty') != ABSENT, E.getf(st, E.ref(c.el), 'optional') != ABSENT))
    return [c.el, c.state, c.vals]
def goes_on(c, st, r):
    E = c.E
    return z3.And(r != NONE, T(E, st, r), r != E.named('Skip', 1), r != E.named('SkipAll', 1))
def called(c, st, k):
    """the first k validators, in order, each once, with the element and the state; each announced"""
    E = c.E; j = z3.Int('j!c')
    rc = T(E, st, c.receivers)
    cc = lambda i: col(E, st, 'call', i, j)
    ss = lambda i: col(E, st, 'send', i, j)
    return z3.And(cnt(E, st, 'call') == k, cnt(E, st, 'send') == z3.If(rc, k, 0),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(cc(0) == c.arr[j], cc(1) == c.el, cc(2) == c.state, cc(4) == V.int(2),
            cc(5) == V.int(z3.If(rc, j, 0)),
            z3.Implies(rc, z3.And(ss(0) == c.arr[j], ss(1) == c.el, ss(2) == c.state, ss(3) == cc(3))))), patterns=[z3.Select(E.comp(st, 'tr.call.3'), j)]))
def inv(L):
    c, st = L.c, L.st
    j = z3.Int('j!i')
    return [('bound', L.i <= c.n), ('calls', called(c, st, L.i)),
            ('all of them go on', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.i), goes_on(c, st, col(c.E, st, 'call', 3, j)))))]
def post(c, st, r):
    E = c.E
    if isexc(r): return [('no exception', False)]
    r = E.to_v(r); rc = T(E, st, c.receivers)
    nc, ns = cnt(E, st, 'call'), cnt(E, st, 'send')
    skip0 = z3.And(c.empty, c.opt)
    none = z3.And(nc == 0)
    out = [('an empty optional element is valid without running anything', z3.Implies(skip0, z3.And(r == V.bool(True), nc == 0, ns == 0)))]
    ne = c.E.intern(c.E.from_v(c.E.from_desc(st, c.E.P.globals[B_]['NotEmpty']))) if 'NotEmpty' in c.E.P.globals[B_] else None
    fallback = z3.And(z3.Not(skip0), c.n == 0)
    out.append(('without validators: valid exactly when not empty', z3.Implies(fallback, z3.And(r == V.bool(z3.Not(c.empty)), nc == 0, ns == z3.If(rc, 1, 0)))))
    if ne is not None:
        out.append(('the fallback is announced as NotEmpty', z3.Implies(z3.And(fallback, rc), z3.And(col(E, st, 'send', 0, 0) == ne, col(E, st, 'send', 1, 0) == c.el,
                    col(E, st, 'send', 2, 0) == c.state, col(E, st, 'send', 3, 0) == r))))
    run = z3.And(z3.Not(skip0), c.n > 0)
    j = z3.Int('j!p')
    out.append(('validators run in order, once each, with element and state, each announced with its result', z3.Implies(run, z3.And(nc >= 1, nc <= c.n, called(c, st, nc)))))
    out.append(('it stops at the first decisive verdict', z3.Implies(run, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nc - 1), goes_on(c, st, col(E, st, 'call', 3, j)))))))
    last = z3.Select(E.comp(st, 'tr.call.3'), nc - 1)
    dec = z3.If(last == NONE, r == V.bool(False), z3.If(last == E.named('Skip', 1), r == V.bool(True), r == last))
    out.append(('the verdict', z3.Implies(run, z3.If(goes_on(c, st, last), z3.And(nc == c.n, r == V.bool(True)), dec))))
    return out

def setup_none(c, st):
    a = setup(c, st)
    c.assume(st, c.n == 0)
    return [c.el, c.state, NONE]

# _validate: which validators run in which direction
def env_v(E, c):
    fields(E, 'is_empty', 'optional')
    def ve(E, st, args, f):
        st = st.clone(); r = E.fresh(V, 'verdict'); rec(E, st, 've', args['element'], args['state'], args['validators'], r); yield st, r
    E.contracts[B_ + ':validate_element'] = ve
    def ga(E, st, args):
        o, nm = E.to_v(args[0]), E.to_v(args[1])
        v = E.uf('getattr', V, V, V)(o, nm)
        if z3.is_true(z3.simplify(o == c.me)): 
            yield st, v
            return
        yield st, v
    E.iface['getattr'] = ga
def setup_v(cls):
    def setup(c, st):
        c.me = c.obj(st, 'element', cls)
        trace(c, st, 've', 4)
        c.state, c.desc = c.sym('state'), c.sym('descending')
        E = c.E
        c.down = E.getf(st, E.ref(c.me), 'validates_down'); c.up = E.getf(st, E.ref(c.me), 'validates_up')
        for x in (c.down, c.up): c.assume(st, z3.Or(x == NONE, V.is_str(x)))
        return [c.me, c.state, c.desc]
    return setup
def post_v(container):
    def post(c, st, r):
        E = c.E
        if isexc(r): return [('no exception', False)]
        r = E.to_v(r); d = T(E, st, c.desc); n = cnt(E, st, 've')
        attr = z3.If(d, c.down, c.up)
        vals = E.uf('getattr', V, V, V)(c.me, attr)
        named = z3.And(attr != NONE, attr != V.str(z3.StringVal('')))
        runs = z3.And(named, z3.Or(z3.Not(d), T(E, st, vals))) if container else named
        ve = lambda k: col(E, st, 've', k, 0)
        return [('runs validate_element at most once', n == z3.If(runs, 1, 0)),
                ('Unevaluated when nothing is to run in this direction', z3.Implies(z3.Not(runs), r == E.to_v(E.from_desc(st, E.P.globals[B_]['Unevaluated'])))),
                ('with this element, this state and the validators of this direction; its verdict is returned',
                 z3.Implies(runs, z3.And(ve(0) == c.me, ve(1) == c.state, ve(2) == vals, r == ve(3))))]
    return post

def contracts(P):
    return [
        Contract('validate_element', B_ + ':validate_element', setup, post, env=env,
                 loops=[LoopSpec('validators', inv, kind='For')],
                 doc='empty optional elements pass untouched; fallback not-empty test without validators; otherwise validators run in order until the first decisive verdict, each announced exactly once with its result'),
        Contract('validate_element (None)', B_ + ':validate_element', setup_none, post, env=env, doc='validators=None behaves like an empty list'),
        Contract('Element._validate', B_ + ':Element._validate', setup_v('flatland.schema.scalars:String'), post_v(False), env=env_v,
                 doc='delegates to validate_element with the validators named by validates_down / validates_up; Unevaluated otherwise'),
        Contract('Container._validate', 'flatland.schema.containers:Container._validate', setup_v('flatland.schema.containers:Dict'), post_v(True), env=env_v,
                 doc='containers run no default not-empty test on the way down'),
    ]
ASSUMPTIONS = ['validators do not change the validator list they are called from, nor connect or disconnect signal receivers while they run',
               'validator calls that raise propagate the exception (not modelled)',
               'validate_element delegates truth of a verdict to Python truth (uninterpreted for objects)']
