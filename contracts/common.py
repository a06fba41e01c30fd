"""helpers shared by the contracts"""
import z3
from core import *
from prove import Contract, LoopSpec

def rec(E, st, name, *cols):
    """append one entry to the ghost trace `name` (its length is gn.name, its columns tr.name.k)"""
    n = E.comp(st, 'gn.' + name)
    for k, v in enumerate(cols): E.setcomp(st, 'tr.%s.%d' % (name, k), z3.Store(E.comp(st, 'tr.%s.%d' % (name, k)), n, E.to_v(v)), None)
    E.setcomp(st, 'gn.' + name, z3.simplify(n + 1), None)
def cnt(E, st, name): return E.comp(st, 'gn.' + name)
def col(E, st, name, k, i): return z3.simplify(z3.Select(E.comp(st, 'tr.%s.%d' % (name, k)), i if z3.is_expr(i) else z3.IntVal(i)))
def trace(c, st, name, cols):
    """start an empty ghost trace"""
    c.assume(st, cnt(c.E, st, name) == 0)
    for k in range(cols): c.E.comp(st, 'tr.%s.%d' % (name, k))
def fields(E, *names):
    """attributes of an object of unknown class that are plain reads (and writes) of a field"""
    for nm in names:
        def h(E, st, o, nm=nm):
            v = E.getf(st, E.ref(o), nm); st.pc = st.pc + (v != ABSENT,); yield st, v
        E.iface[nm] = h
def frozen(E, *names):
    """attributes that a function of the object alone: not changed by anything that runs"""
    for nm in names:
        def h(E, st, o, nm=nm):
            v = E.uf('attr_' + nm, I, V)(E.ref(o)); st.pc = st.pc + (v != ABSENT, z3.Implies(V.is_obj(v), V.r(v) > 0)); yield st, v
        E.iface[nm] = h
def isexc(r, *names): return isinstance(r, Exc) and (not names or r.cls in names)
def T(E, st, v):
    t = E.truth(st, E.to_v(v))
    return z3.BoolVal(t) if isinstance(t, bool) else t
def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    return z3.ForAll(list(vs), body, patterns=pats) if pats else z3.ForAll(list(vs), body)
def unchanged(c, st, *comps):
    """heap components the function must not have written (on objects that existed before)"""
    out = []
    for nm in comps:
        a, b = c.E.comp(c.st0, nm), c.E.comp(st, nm)
        if a.eq(b): out.append(('frame: %s' % nm, z3.BoolVal(True))); continue
        r = z3.Int('r!fr')
        out.append(('frame: %s' % nm, z3.ForAll([r], z3.Implies(r > 0, z3.Select(a, r) == z3.Select(b, r)))))
    return out
def framed(c, st, name, *refs):
    """component `name` changed at most at the given references (among objects that existed before)"""
    a, b = c.E.comp(c.st0, name), c.E.comp(st, name)
    r = z3.Int('r!fr')
    return ('frame: %s' % name, z3.ForAll([r], z3.Implies(z3.And([r > 0] + [r != x for x in refs]), z3.Select(a, r) == z3.Select(b, r))))
def _clean(t):
    """usable as a trigger: no binder, no logical connective inside"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_bool(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE): return False
        todo.extend(x.children())
    return True
def FA(vs, body, *pats):
    """ForAll with triggers: each argument is an alternative, a tuple is a multi-pattern (unusable ones are dropped)"""
    vs = list(vs) if isinstance(vs, (list, tuple)) else [vs]
    ps = []
    for p in pats:
        p = p if isinstance(p, tuple) else (p,)
        if all(_clean(x) for x in p) and _covers(vs, p): ps.append(z3.MultiPattern(*p))
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
def _covers(vs, p):
    """every bound variable occurs in the trigger (a read of a constant array may have lost it)"""
    seen, todo = set(), [z3.simplify(x) for x in p]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo.extend(x.children())
    return all(v.get_id() in seen for v in vs)
def FP(vs, body, *pats):
    """like FA, and membership tests and predicates may be triggers too"""
    vs = list(vs) if isinstance(vs, (list, tuple)) else [vs]; ps = []
    for p in pats:
        p = p if isinstance(p, tuple) else (p,)
        if all((_clean(x) if not z3.is_bool(x) else z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and all(_clean(y) for y in x.children())) for x in p) and _covers(vs, p): ps.append(z3.MultiPattern(*p))
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
_nw = [0]
def exw(vs, body, *wits):
    """Exists vs. body, with suggested witnesses: equivalent to it as a goal (the marker predicate is unconstrained),
    and it tells the prover which instances to look at.  For goals only."""
    _nw[0] += 1
    w = z3.Function('wit!%d' % _nw[0], *([v.sort() for v in vs] + [z3.BoolSort()]))
    return z3.Implies(z3.And([w(*t) for t in wits]), z3.Not(z3.ForAll(list(vs), z3.Or(z3.Not(w(*vs)), z3.Not(body)), patterns=[w(*vs)])))
def pin(c, st, o, cls, *names):
    """attributes that the object takes from its class as the class defines them in the current source"""
    E = c.E
    for n in names:
        b, d = E.P.class_attr(cls, n)
        if d is None: raise Unsupported('class attribute %s.%s' % (cls, n))
        E.setf(st, E.ref(o), n, E.to_v(E.from_desc(st, d, ('g', cls, n))))
def table(c, st, mod, name):
    """a module-level dict, list or set with the contents that importing the current source gives it"""
    E = c.E
    def val(d):
        v = E.to_v(E.from_desc(st, d))
        if d['k'] in ('dict', 'list', 'set'): c.tables = getattr(c, 'tables', []) + [v]; fill(v, d)
        return v
    def fill(v, d):
        r = E.ref(v)
        if d['k'] == 'list':
            a = z3.K(I, ABSENT)
            for k, x in enumerate(d['v']): a = z3.Store(a, k, val(x))
            E.lset(st, r, z3.IntVal(len(d['v'])), a); return
        x = z3.Const('x!tb', V); keys = []
        for y in d['v']:
            key, y = (y, None) if d['k'] == 'set' else y
            kk = E.to_v(E.from_desc(st, key)); keys.append(kk)
            if y is None: continue
            y = val(y); t = E.dget(st, r, kk); c.assume(st, t == y)
            if E.classof(st, y): E.setclass(st, t, E.classof(st, y))
        dom = E.dom(st, r); c.assume(st, FA(x, z3.Select(dom, x) == z3.Or([x == k for k in keys]), z3.Select(dom, x)))
        c.assume(st, z3.And([z3.Select(dom, k) for k in keys]))
    d = E.P.globals.get(mod, {}).get(name)
    if d is None or d['k'] not in ('dict', 'list', 'set'): raise Unsupported('module table %s.%s' % (mod, name))
    v = E.lookup_global(st, mod, name)
    fill(v, d); c.tables = getattr(c, 'tables', []) + [v]
    c.E.assumed.add('module tables (%s) are not modified after import' % name)
    return v
