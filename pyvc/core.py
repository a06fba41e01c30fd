"""pyvc core: values, heap, path states and the symbolic evaluator.

Every path of a function is executed over symbolic values; loops are cut by invariants (LoopSpec);
obligations are collected with the path condition under which they must hold.  See DESIGN.md for
the subset of Python and for what is assumed about library functions."""
import itertools, sys
import time
import z3
from front import N, Lit, walk, walk_own

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ value domain
_V = z3.Datatype('V')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('str', ('s', z3.StringSort()))
_V.declare('nil')
_V.declare('cons', ('hd', _V), ('tl', _V))
_V.declare('obj', ('r', z3.IntSort()))
_V.declare('sym', ('k', z3.IntSort()))
_V.declare('absent')
V = _V.create()
I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
NONE, NIL, ABSENT = V.none, V.nil, V.absent
TRUE, FALSE = V.bool(z3.BoolVal(True)), V.bool(z3.BoolVal(False))
AV = z3.ArraySort(I, V)          # Int -> V
AAV = z3.ArraySort(I, AV)
DOM = z3.ArraySort(V, B)
MAP = z3.ArraySort(V, V)

def iv(n): return V.int(z3.IntVal(n) if isinstance(n, int) else n)
def sv(s): return V.str(z3.StringVal(z3str(s)) if isinstance(s, str) else s)
def bv(b): return V.bool(z3.BoolVal(b) if isinstance(b, bool) else b)
def z3str(s):
    return ''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s)

class Unsupported(Exception):
    pass

class SpecMismatch(Exception):
    pass

# static (non-V) values
class Tup(object):
    def __init__(self, items): self.items = list(items)
class Func(object):
    def __init__(self, node, mod, qual=None, scopes=(), cls=None, defaults=None, kind='func'):
        self.node, self.mod, self.qual, self.scopes, self.cls, self.kind = node, mod, qual, tuple(scopes), cls, kind
        self.defaults = defaults
    @property
    def name(self): return getattr(self.node, 'name', '<lambda>')
class Bound(object):
    def __init__(self, self_, f): self.self, self.f = self_, f
class Cls(object):
    def __init__(self, q): self.q = q
    @property
    def short(self): return self.q.split(':')[-1]
class Mod(object):
    def __init__(self, name): self.name = name
class BI(object):
    def __init__(self, name): self.name = name
class NamedInt(object):
    def __init__(self, name, v): self.name, self.v = name, v
class Symb(object):
    def __init__(self, name): self.name = name
class SliceV(object):
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
class Regex(object):
    def __init__(self, pattern, flags): self.pattern, self.flags = pattern, flags
class FloatC(object):
    def __init__(self, v): self.v = v
class Gen(object):
    """Unstarted generator: call of a generator function or a generator expression."""
    def __init__(self, run): self.run = run     # run(E, st, on_yield) yields (st, flow)
class DictIter(object):
    def __init__(self, ref, what): self.ref, self.what = ref, what
class Enum(object):
    def __init__(self, src): self.src = src
class Zip(object):
    def __init__(self, srcs): self.srcs = srcs
class Chain(object):
    def __init__(self, srcs): self.srcs = srcs
class Rng(object):
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
class Rev(object):
    def __init__(self, src): self.src = src
class ListIter(object):
    """live iteration over the list object with this ref (python semantics: index < current length)"""
    def __init__(self, ref): self.ref = ref
class SeqVal(object):
    """an immutable symbolic sequence: length term, array term"""
    def __init__(self, n, arr): self.n, self.arr = n, arr
class KwDict(object):
    """statically known **kw dictionary (not aliased)"""
    def __init__(self, d): self.d = dict(d)
class Meth(object):
    """bound method of a built-in type"""
    def __init__(self, o, name): self.o, self.name = o, name
class ExcVal(object):
    def __init__(self, exc): self.exc = exc
class SuperV(object):
    def __init__(self, cls, self_): self.cls, self.self = cls, self_
class Exc(object):
    def __init__(self, cls, args=(), val=None): self.cls, self.args, self.val = cls, tuple(args), val
    def __repr__(self): return 'Exc(%s)' % self.cls

EXC_BASE = {'ArithmeticError': 'StandardError', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
            'AssertionError': 'StandardError', 'AttributeError': 'StandardError', 'LookupError': 'StandardError',
            'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'StandardError',
            'UnboundLocalError': 'NameError', 'RuntimeError': 'StandardError', 'NotImplementedError': 'RuntimeError',
            'TypeError': 'StandardError', 'ValueError': 'StandardError', 'UnicodeError': 'ValueError',
            'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'StandardError': 'Exception',
            'Exception': 'BaseException', 'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
            'StopIteration': 'Exception', 'GeneratorExit': 'BaseException', 'OtherException': 'Exception',
            'InvalidOperation': 'ArithmeticError', 'DivisionByZero': 'ArithmeticError', 'BaseFlatlandError': 'Exception', 'AdaptationError': 'BaseFlatlandError', 'ImportError': 'StandardError'}

class St(object):
    __slots__ = ('pc', 'heap', 'loc', 'kc', 'alloc', 'epoch', 'sid', 'bounded', 'writes', 'facts', 'exc')
    def clone(self):
        s = St()
        s.pc, s.heap, s.loc, s.kc = self.pc, dict(self.heap), dict(self.loc), dict(self.kc)
        s.alloc, s.epoch, s.sid, s.bounded, s.writes = self.alloc, self.epoch, self.sid, self.bounded, self.writes
        s.facts = self.facts
        s.exc = self.exc
        return s

COMP_SORT = {'llen': z3.ArraySort(I, I), 'lel': AAV, 'dom': z3.ArraySort(I, DOM), 'map': z3.ArraySort(I, MAP),
             'card': z3.ArraySort(I, I), 'tn': I}
def comp_sort(name):
    if name in COMP_SORT: return COMP_SORT[name]
    if name.startswith('f.') : return AV
    if name.startswith('tr.'): return AV          # ghost trace columns
    if name.startswith('gb.'): return z3.ArraySort(I, B)
    if name.startswith('gi.'): return z3.ArraySort(I, I)
    if name.startswith('gn.'): return I
    if name.startswith('gv.'): return z3.ArraySort(V, I)      # ghost: a number for each value
    if name.startswith('ga.'): return z3.ArraySort(I, AV)     # ghost trace of sequences
    raise KeyError(name)

class Oblig(object):
    def __init__(self, name, pc, goal, func, bounded, kind):
        self.name, self.pc, self.goal, self.func, self.bounded, self.kind = name, pc, goal, func, bounded, kind
        self.status = None; self.time = 0.0; self.backend = None; self.model = None
# ------------------------------------------------------------------ engine
class Engine(object):
    MAXPATHS = 6000
    def __init__(self, prog):
        self.P = prog
        self.registry = []            # sym id -> static value
        self.symkey = {}
        self.fresh_n = 0
        self.iface = {}               # attribute of an abstract element -> handler(E, st, ref, name)
        self.ddict = {}                # references of defaultdicts -> factory
        self.icall = {}               # method of an abstract object -> handler(E, st, selfv, args, kw)
        self.identity = False         # objects compare by identity (a contract's assumption)
        self.ext = {}                 # external function name -> handler
        self.contracts = {}           # qual -> Contract applied at call sites
        self.extcall = None           # call of an unknown value
        self.loopspecs = []
        self.obligs = []
        self.dry = 0
        self.unroll = 3
        self.current = ''
        self.ghost = None
        self.entry = None             # state at entry of the function under verification
        self.notes = []
        self.assumed = set()          # library assumptions used, by name
        self.inlined = set()
        self.keep = []                # keeps z3 asts alive for id() keys
        self.solvers = []
        for tm in (1500, 500):
            so = z3.Solver(); so.set('timeout', tm); so.set('smt.mbqi', False)
            self.solvers.append((so, []))
        self.quants = {}
        self.collecting = []
        self.deadline = None
        self.textkeyed = []           # dictionaries whose keys are known to be text (** arguments)
        self.epoch_alloc = {}
        self.base_alloc = {}
        self.paths = 0
        self.checks = 0
        self.class_fields = {}
        self.classconst = {}
        self.ufs = {}

    # ---------- small helpers
    def fresh(self, sort, hint='x'):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (hint, self.fresh_n), sort)
    def uf(self, name, *sorts):
        f = self.ufs.get(name)
        if f is None:
            f = self.ufs[name] = z3.Function(name, *sorts)
        return f
    def intern(self, val, key=None):
        if key is None:
            if isinstance(val, Symb): key = ('symbol', val.name)
            elif isinstance(val, NamedInt): key = ('named', val.name)
            elif isinstance(val, Cls): key = ('cls', val.q)
            elif isinstance(val, BI): key = ('bi', val.name)
            elif isinstance(val, Mod): key = ('mod', val.name)
            elif isinstance(val, Regex): key = ('re', val.pattern, val.flags)
            elif isinstance(val, FloatC): key = ('float', val.v)
            elif isinstance(val, Func) and not val.scopes: key = ('func', val.qual or id(val.node))
            else: key = ('id', id(val)); self.keep.append(val)
        k = self.symkey.get(key)
        if k is None:
            k = len(self.registry)
            self.registry.append(val)
            self.symkey[key] = k
        return V.sym(z3.IntVal(k))
    def named(self, name, v):
        return self.intern(NamedInt(name, v))
    def symbol(self, name):
        return self.intern(Symb(name))
    def to_v(self, x, st=None):
        if isinstance(x, z3.ExprRef): return x
        if x is None: return NONE
        if isinstance(x, bool): return bv(x)
        if isinstance(x, int): return iv(x)
        if isinstance(x, str): return sv(x)
        if isinstance(x, Tup):
            r = NIL
            for it in reversed(x.items):
                r = V.cons(self.to_v(it, st), r)
            return r
        if isinstance(x, (Symb, NamedInt, Cls, BI, Mod, Regex, FloatC, Func, Bound, Gen, KwDict, DictIter, SeqVal,
                          ListIter, SliceV, Chain, Zip, Enum, Rev, Rng, Meth, ExcVal, SuperV)):
            return self.intern(x)
        raise Unsupported('cannot store %r' % (x,))
    def from_v(self, v):
        """the static value behind an interned symbol, if v is syntactically one"""
        if isinstance(v, z3.ExprRef):
            v = z3.simplify(v) if not z3.is_const(v) else v
            if z3.is_app(v) and v.decl().eq(V.sym):
                k = v.arg(0)
                if z3.is_int_value(k):
                    return self.registry[k.as_long()]
            if z3.is_app(v) and v.decl().eq(V.cons):
                items, x = [], v
                while z3.is_app(x) and x.decl().eq(V.cons): items.append(x.arg(0)); x = x.arg(1)
                if x.eq(NIL): return Tup(items)
        return v
    def ctor(self, v):
        """syntactic constructor name of v or None"""
        if z3.is_app(v):
            d = v.decl()
            for n in ('none', 'bool', 'int', 'str', 'nil', 'cons', 'obj', 'sym', 'absent'):
                dd = getattr(V, n)
                if isinstance(dd, z3.FuncDeclRef):
                    if d.eq(dd): return n
                elif v.eq(dd): return n
        return None
    # ---------- solver
    def check(self, pc, extra=None):
        """sat/unsat/unknown of the path condition (with reuse of the common prefix)"""
        self.checks += 1
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
        ex = () if extra is None else (extra,)
        if self._run(0, [x for x in pc if not self.quant(x)], [x for x in ex if not self.quant(x)]) == z3.unsat: return z3.unsat
        if self.dry: return z3.unknown      # write-set analysis: an infeasible path only adds to the set
        return self._run(1, pc, ex)
    def quant(self, c):
        """does the formula contain a quantifier (a lambda does not count)"""
        k = c.get_id()
        r = self.quants.get(k)
        if r is None:
            seen, todo, r = set(), [c], False
            while todo and not r:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    if not x.is_lambda(): r = True
                    todo.append(x.body())
                else: todo.extend(x.children())
            self.quants[k] = r; self.keep.append(c)
        return r
    def _run(self, w, pc, extra):
        solver, stack = self.solvers[w]
        n = 0
        m = min(len(stack), len(pc))
        while n < m and stack[n] is pc[n]:
            n += 1
        while len(stack) > n:
            solver.pop(); stack.pop()
        for c in pc[n:]:
            solver.push(); solver.add(c); stack.append(c)
        if not extra: return solver.check()
        solver.push()
        for x in extra: solver.add(x)
        r = solver.check(); solver.pop()
        return r
    def feasible(self, st, cond):
        return self.check(st.pc, cond) != z3.unsat
    def implied(self, st, cond):
        return self.check(st.pc, z3.Not(cond)) == z3.unsat
    def assume(self, st, c):
        if z3.is_true(c): return st
        if z3.is_and(c):
            for x in c.children(): self.assume(st, x)
            return st
        st.pc = st.pc + (c,)
        return st
    def split(self, st, cond):
        """yields (state, bool) for the feasible branches"""
        if isinstance(cond, bool):
            yield st, cond; return
        cond = z3.simplify(cond)
        if z3.is_true(cond): yield st, True; return
        if z3.is_false(cond): yield st, False; return
        t = self.feasible(st, cond)
        if not t:
            yield st, False; return
        f = self.feasible(st, z3.Not(cond))
        if not f:
            yield st, True; return
        self.paths += 1
        if self.paths > self.MAXPATHS:
            raise Unsupported('path budget exceeded')
        a = st.clone(); a.pc = a.pc + (cond,)
        yield a, True
        b = st.clone(); b.pc = b.pc + (z3.Not(cond),)
        yield b, False
    def oblige(self, st, name, goal, kind='post'):
        if self.dry: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.obligs.append(Oblig(name, st.pc, goal, self.current, st.bounded, kind))
    # ---------- heap
    def new_state(self):
        st = St()
        st.pc, st.heap, st.loc, st.kc = (), {}, {}, {}
        st.alloc = z3.IntVal(0)
        st.epoch, st.sid, st.bounded, st.writes, st.facts, st.exc = 0, 0, False, None, frozenset(), None
        self.epoch_alloc[0] = z3.IntVal(0)
        return st
    def comp(self, st, name):
        c = st.heap.get(name)
        if c is None:
            c = z3.Const('H0_%s' % name if st.epoch == 0 else 'H_%s!%d' % (name, st.epoch), comp_sort(name))
            self.base_alloc.setdefault(c.get_id(), self.epoch_alloc[st.epoch]); self.keep.append(c)
        return c
    def setcomp(self, st, name, val, ref=None):
        if st.writes is not None:
            st.writes.setdefault(name, []).append(ref)
        st.heap[name] = val
    def havoc_comp(self, st, name):
        c = self.fresh(comp_sort(name), 'hv_' + name)
        self.base_alloc[c.get_id()] = st.alloc; self.keep.append(c)
        return c
    def base_of(self, a):
        """innermost constant array(s) of a term"""
        out = []
        stack = [a]
        while stack:
            x = stack.pop()
            if z3.is_const(x): out.append(x)
            elif z3.is_store(x): stack.append(x.arg(0))
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                stack.append(x.arg(1)); stack.append(x.arg(2))
        return out
    def allocfact(self, st, v, bound):
        """every object reference stored in a heap existed when that heap was created"""
        if bound is None: return
        if self.ctor(v) is not None: return
        st.pc = st.pc + (z3.Implies(V.is_obj(v), V.r(v) >= -bound),)
    def sel(self, st, arr, idx):
        v = z3.simplify(z3.Select(arr, idx))
        return v
    def getf(self, st, ref, name):
        c = self.comp(st, 'f.' + name)
        v = self.sel(st, c, ref)
        self._afact(st, c, ref, v, ('f', name))
        return v
    def _afact(self, st, c, ref, v, key):
        if self.ctor(v) is not None: return
        for b in self.base_of(c):
            bound = self.base_alloc.get(b.get_id())
            if bound is None: continue
            t = z3.Select(b, ref)
            k = (b.get_id(), ref.get_id()) + key
            if k in st.facts: continue
            st.facts = st.facts | {k}
            self.keep.append(t); self.keep.append(ref)
            if t.sort() == V:
                st.pc = st.pc + (z3.Implies(V.is_obj(t), V.r(t) >= -bound),)
    def setf(self, st, ref, name, val):
        c = self.comp(st, 'f.' + name)
        self.setcomp(st, 'f.' + name, z3.Store(c, ref, self.to_v(val)), ref)
    def alloc(self, st, q=None):
        st.alloc = z3.simplify(st.alloc + 1)
        ref = z3.simplify(-st.alloc)
        v = V.obj(ref)
        if q: self.setclass(st, v, q)
        return v
    def setclass(self, st, v, q):
        t = z3.simplify(v)
        self.keep.append(t)
        st.kc[t.get_id()] = q
        if z3.is_app(t) and t.decl().eq(V.obj):
            self.keep.append(t.arg(0)); st.kc[('r', t.arg(0).get_id())] = q
        else:
            r = z3.simplify(V.r(t)); self.keep.append(r); st.kc[('r', r.get_id())] = q
    def classof(self, st, v):
        q = st.kc.get(v.get_id())
        if q: return q
        t = z3.simplify(v)
        q = st.kc.get(t.get_id())
        if q: return q
        if z3.is_app(t) and t.decl().eq(V.obj):
            return st.kc.get(('r', t.arg(0).get_id()))
        return None
    def ref(self, v):
        if z3.is_app(v) and v.decl().eq(V.obj): return v.arg(0)
        return z3.simplify(V.r(v))
    # lists
    def llen(self, st, ref):
        n = self.sel(st, self.comp(st, 'llen'), ref)
        if not z3.is_int_value(n):
            k = ('len', n.get_id())
            if k not in st.facts:
                st.facts = st.facts | {k}; self.keep.append(n)
                st.pc = st.pc + (n >= 0,)
        return n
    def larr(self, st, ref):
        return self.sel(st, self.comp(st, 'lel'), ref)
    def lget(self, st, ref, i):
        a = self.larr(st, ref)
        return self.aget(st, a, i)
    def aget(self, st, a, i):
        v = self.sel(st, a, i)
        if self.ctor(v) is None:
            # allocation fact for list elements coming from a base heap
            for b in self._lel_bases(a):
                bound = self.base_alloc.get(b.get_id())
                if bound is None: continue
                k = ('le', v.get_id())
                if k in st.facts: break
                st.facts = st.facts | {k}; self.keep.append(v)
                if z3.is_int_value(bound) and bound.as_long() == 0:
                    st.pc = st.pc + (z3.Implies(V.is_obj(v), V.r(v) >= -bound),)
                break
        return v
    def _lel_bases(self, a):
        out = []
        if z3.is_select(a): out.extend(self.base_of(a.arg(0)))
        elif z3.is_const(a): out.append(a)
        return out
    def lset(self, st, ref, n, arr):
        self.setcomp(st, 'llen', z3.Store(self.comp(st, 'llen'), ref, n), ref)
        self.setcomp(st, 'lel', z3.Store(self.comp(st, 'lel'), ref, arr), ref)
    def newlist(self, st, items=(), q='__builtin__:list'):
        v = self.alloc(st, q)
        arr = z3.K(I, ABSENT)
        for i, x in enumerate(items):
            arr = z3.Store(arr, z3.IntVal(i), self.to_v(x))
        self.lset(st, self.ref(v), z3.IntVal(len(items)), arr)
        return v
    def newlist_sym(self, st, n, arr, q='__builtin__:list'):
        v = self.alloc(st, q)
        self.lset(st, self.ref(v), n, arr)
        return v
    def lappend(self, st, ref, x):
        n = self.llen(st, ref)
        self.lset(st, ref, z3.simplify(n + 1), z3.Store(self.larr(st, ref), n, self.to_v(x)))
    def lextend(self, st, ref, m, arr2):
        n = self.llen(st, ref); a = self.larr(st, ref)
        if z3.is_int_value(m) and m.as_long() <= 8:
            for k in range(m.as_long()):
                a = z3.Store(a, z3.simplify(n + k), z3.simplify(z3.Select(arr2, z3.IntVal(k))))
        else:
            j = z3.Int('j!c')
            a = z3.Lambda([j], z3.If(j < n, z3.Select(a, j), z3.Select(arr2, j - n)))
        self.lset(st, ref, z3.simplify(n + m), a)
    # dicts
    def dom(self, st, ref): return self.sel(st, self.comp(st, 'dom'), ref)
    def dmap(self, st, ref): return self.sel(st, self.comp(st, 'map'), ref)
    def dhas(self, st, ref, k): return z3.simplify(z3.Select(self.dom(st, ref), k))
    def dget(self, st, ref, k):
        v = self.sel(st, self.dmap(st, ref), k)
        if self.ctor(v) is None:
            for b in self._lel_bases(self.dmap(st, ref)):
                bound = self.base_alloc.get(b.get_id())
                if bound is None: continue
                kk = ('de', v.get_id())
                if kk in st.facts: break
                st.facts = st.facts | {kk}; self.keep.append(v)
                if z3.is_int_value(bound) and bound.as_long() == 0:
                    st.pc = st.pc + (z3.Implies(V.is_obj(v), V.r(v) >= -bound),)
                break
        return v
    def dput(self, st, ref, k, v):
        self.setcomp(st, 'dom', z3.Store(self.comp(st, 'dom'), ref, z3.Store(self.dom(st, ref), k, z3.BoolVal(True))), ref)
        self.setcomp(st, 'map', z3.Store(self.comp(st, 'map'), ref, z3.Store(self.dmap(st, ref), k, self.to_v(v))), ref)
    def ddel(self, st, ref, k):
        self.setcomp(st, 'dom', z3.Store(self.comp(st, 'dom'), ref, z3.Store(self.dom(st, ref), k, z3.BoolVal(False))), ref)
    def dset(self, st, ref, dom, mp):
        self.setcomp(st, 'dom', z3.Store(self.comp(st, 'dom'), ref, dom), ref)
        self.setcomp(st, 'map', z3.Store(self.comp(st, 'map'), ref, mp), ref)
    EMPTYDOM = z3.K(V, z3.BoolVal(False))
    EMPTYMAP = z3.K(V, ABSENT)
    def newdict(self, st, items=(), q='__builtin__:dict'):
        v = self.alloc(st, q)
        d, m = self.EMPTYDOM, self.EMPTYMAP
        for k, x in items:
            d = z3.Store(d, self.to_v(k), z3.BoolVal(True)); m = z3.Store(m, self.to_v(k), self.to_v(x))
        self.dset(st, self.ref(v), d, m)
        return v
    # ---------- truth / equality
    def truth(self, st, x):
        """z3 Bool or bool for bool(x) of a value without user-defined truth methods"""
        x = self.from_v(x)
        if not isinstance(x, z3.ExprRef):
            if x is None: return False
            if isinstance(x, (bool, int, str)): return bool(x)
            if isinstance(x, Tup): return bool(x.items)
            if isinstance(x, NamedInt): return bool(x.v)
            if isinstance(x, FloatC): return bool(x.v)
            if isinstance(x, KwDict): return bool(x.d)
            if isinstance(x, SeqVal): return x.n > 0
            return True
        c = self.ctor(x)
        if c == 'none': return False
        if c == 'bool': return x.arg(0)
        if c == 'int': return z3.simplify(x.arg(0) != 0)
        if c == 'str': return z3.simplify(x.arg(0) != z3.StringVal(''))
        if c == 'nil': return False
        if c == 'cons': return True
        q = self.classof(st, x)
        if c == 'obj' or q:
            ref = self.ref(x)
            return self.objtruth(st, ref, q)
        return z3.simplify(z3.If(V.is_bool(x), V.b(x), z3.If(V.is_int(x), V.i(x) != 0,
               z3.If(V.is_str(x), V.s(x) != z3.StringVal(''),
               z3.If(V.is_sym(x), self.symtruth(V.k(x)), z3.If(V.is_obj(x), self.objtruth(st, V.r(x), None),
                     z3.And(x != NONE, x != NIL, x != ABSENT)))))))
    def symtruth(self, k):
        # false named integers are the only false interned values
        f = [i for i, v in enumerate(self.registry) if (isinstance(v, NamedInt) and not v.v)]
        return z3.And([k != i for i in f]) if f else z3.BoolVal(True)
    def objtruth(self, st, ref, q):
        if q:
            m = self.P.mro(q)
            if '__builtin__:list' in m or 'collections:deque' in m or q == '__builtin__:tuple':
                return z3.simplify(self.llen(st, ref) > 0)
            if '__builtin__:dict' in m or '__builtin__:set' in m:
                k = z3.Const('k!t', V)
                return z3.Exists([k], z3.Select(self.dom(st, ref), k))
            if not self.P.class_attr(q, '__nonzero__')[1] and not self.P.class_attr(q, '__len__')[1] and q in self.P.classes:
                return True
        return self.uf('objtruth', I, B)(ref)
    def isnum(self, v):
        return z3.Or(V.is_bool(v), V.is_int(v), z3.And(V.is_sym(v), self.symnum(V.k(v))))
    def symnum(self, k):
        f = [i for i, v in enumerate(self.registry) if isinstance(v, NamedInt)]
        return z3.Or([k == i for i in f]) if f else z3.BoolVal(False)
    def numval(self, v):
        t = z3.IntVal(0)
        for i, x in enumerate(self.registry):
            if isinstance(x, NamedInt): t = z3.If(V.k(v) == i, z3.IntVal(x.v), t)
        return z3.If(V.is_bool(v), z3.If(V.b(v), z3.IntVal(1), z3.IntVal(0)), z3.If(V.is_int(v), V.i(v), t))
    def eq(self, st, a, b):
        """Python == as a z3 Bool (objects: uninterpreted, reflexive)"""
        a, b = self.to_v(a), self.to_v(b)
        ca, cb = self.ctor(a), self.ctor(b)
        simple = ('none', 'str', 'nil', 'absent')
        if ca in simple or cb in simple:
            if ca in ('none',) or cb in ('none',):
                o = b if ca == 'none' else a
                if self.ctor(o) in ('obj', None):
                    return z3.simplify(a == b)      # == None: objects are assumed not to equal None
            return z3.simplify(a == b)
        if ca == 'int' and cb == 'int': return z3.simplify(a.arg(0) == b.arg(0))
        if ca == 'bool' and cb == 'bool': return z3.simplify(a.arg(0) == b.arg(0))
        if ca == 'cons' and cb == 'cons':
            return z3.And(self.eq(st, a.arg(0), b.arg(0)), self.eq(st, a.arg(1), b.arg(1)))
        if self.identity and (ca == 'obj' or cb == 'obj'): return z3.simplify(a == b)
        pe = (lambda a, b: z3.BoolVal(False)) if self.identity else self.uf('pyeq', V, V, B)
        t = z3.Or(a == b, z3.And(self.isnum(a), self.isnum(b), self.numval(a) == self.numval(b)),
                  z3.And(z3.Or(V.is_obj(a), V.is_obj(b)), pe(a, b)))
        return z3.simplify(t)
    def is_(self, a, b):
        return z3.simplify(self.to_v(a) == self.to_v(b))
