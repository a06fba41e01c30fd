"""C17: luhn10 and the Luhn10 validator."""
import z3
from core import *
from prove import Contract, LoopSpec

F = z3.RecFunction('luhn_sum', I, I)
_n = z3.Int('n!l')
_d = (_n / 10) % 10
z3.RecAddDefinition(F, [_n], z3.If(_n <= 0, 0, _n % 10 + (2 * _d) / 10 + (2 * _d) % 10 + F(_n / 100)))

def absv(n): return z3.If(n < 0, -n, n)

def setup(c, st):
    c.n = c.sym('number', I)
    return [V.int(c.n)]
def post(c, st, r):
    if isinstance(r, Exc): return [('no exception', False)]
    return [('True exactly when the Luhn sum of |number| is divisible by ten', c.E.to_v(r) == V.bool(F(absv(c.n)) % 10 == 0))]
def inv(L):
    c = L.c; cur, s = L.var('number'), L.var('sum')
    return [('types', z3.And(V.is_int(cur), V.is_int(s))), ('sum', V.i(s) + F(V.i(cur)) == F(absv(c.n))), ('nonneg', V.i(cur) >= 0)]
def lem(L1, L2):
    cur = V.i(L1.var('number'))
    return [z3.Implies(cur >= 0, z3.And((cur % 100) % 10 == cur % 10, (cur % 100) / 10 == (cur / 10) % 10)),
            z3.Implies(cur > 0, F(cur) == cur % 10 + (2 * ((cur / 10) % 10)) / 10 + (2 * ((cur / 10) % 10)) % 10 + F(cur / 100))]

def env_v(E, c):
    def luhn(E, st, args, func):
        for s, x in E.need_int(st, args[0]):
            yield s, (x if isinstance(x, Exc) else V.bool(F(absv(x)) % 10 == 0))
    E.contracts['flatland.util.base:luhn10'] = luhn
def setup_v(c, st):
    me = c.obj(st, 'validator', 'flatland.validation.number:Luhn10')
    el = c.obj(st, 'element', 'flatland.schema.scalars:Integer')
    c.distinct(st, me, el)
    c.el = el
    c.value = c.sym('value'); c.assume(st, z3.Or(c.value == NONE, V.is_int(c.value)))
    c.E.setf(st, c.E.ref(el), 'value', c.value)
    c.state = c.sym('state')
    return [me, el, c.state]
def env_note(E, c):
    env_v(E, c)
    def note(E, st, args, func):
        st = st.clone()
        c.noted = True
        yield st, False
    E.contracts['flatland.validation.base:Validator.note_error'] = note
def post_v(c, st, r):
    if isinstance(r, Exc): return [('no exception', False)]
    v = c.value
    return [('accepts exactly the elements whose number passes',
             c.E.to_v(r) == V.bool(z3.And(V.is_int(v), F(absv(V.i(v))) % 10 == 0)))]

def contracts(P):
    return [
        Contract('luhn10', 'flatland.util.base:luhn10', setup, post,
                 loops=[LoopSpec('digits', inv, kind='While', variant=lambda L: V.i(L.var('number')), lemmas=lem)],
                 doc='terminates for every integer; True exactly when the Luhn sum of the absolute value is divisible by ten'),
        Contract('Luhn10.validate', 'flatland.validation.number:Luhn10.validate', setup_v, post_v, env=env_note,
                 doc='True exactly for a number that passes luhn10; False without a number'),
    ]
ASSUMPTIONS = ['Luhn10.validate: element.value is an integer or None (an integer field), note_error returns False (its own contract: C19)']
