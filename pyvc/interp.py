"""pyvc: expressions and statements."""
import re
import z3
from front import N, Lit, walk, walk_own
from core import *

def digits(i, w):
    """the decimal digits of 0 <= i < 10**w as one-character texts"""
    return [z3.StrFromCode(z3.simplify(48 + (i / 10 ** k) % 10)) for k in range(w - 1, -1, -1)]

class Frame(object):
    def __init__(self, func, sid, scopes, mod, cls, on_yield=None, locals_=()):
        self.func, self.sid, self.scopes, self.mod, self.cls = func, sid, scopes, mod, cls
        self.on_yield, self.locals, self.globals = on_yield, set(locals_), set()

def assigned(body):
    out = set(); glob = set()
    for n in walk_own(body):
        if n._ == 'Name' and getattr(n.ctx, '_', '') in ('Store', 'AugStore', 'Param', 'Del'):
            out.add(n.id)
        elif n._ in ('FunctionDef', 'ClassDef'):
            out.add(n.name)
        elif n._ in ('Import', 'ImportFrom'):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        elif n._ == 'Global':
            glob.update(n.names)
        elif n._ == 'ExceptHandler' and n.name is not None:
            for m in walk(n.name):
                if m._ == 'Name': out.add(m.id)
    return out - glob, glob

def is_generator(node):
    c = getattr(node, '_isgen', None)
    if c is None:
        c = node._ == 'FunctionDef' and any(x._ == 'Yield' for x in walk_own(node.body))
        node._isgen = c
    return c

class Interp(Engine):
    # ------------------------------------------------------------ names
    def lookup(self, st, fr, name):
        if name not in fr.globals:
            for sid in fr.scopes:
                if (sid, name) in st.loc:
                    return st.loc[(sid, name)]
            if name in fr.locals:
                return Exc('UnboundLocalError')
        return self.lookup_global(st, fr.mod, name)
    def lookup_global(self, st, mod, name):
        key = ('g', mod, name)
        if key in st.loc: return st.loc[key]
        g = self.P.globals.get(mod, {})
        if name in g:
            return self.from_desc(st, g[name], key)
        if name == 'None': return None
        if name == 'True': return True
        if name == 'False': return False
        if name in EXC_BASE: return Cls('exceptions:' + name)
        if name in ('list', 'dict', 'set', 'tuple', 'str', 'unicode', 'int', 'long', 'bool', 'float', 'object', 'type',
                    'basestring', 'frozenset', 'slice', 'classmethod', 'staticmethod', 'property', 'xrange'):
            return Cls('__builtin__:' + name)
        return BI(name)
    def from_desc(self, st, d, key=None):
        k = d['k']
        if k == 'const': return d['v']
        if k in ('str', 'bytes'): return d['v']
        if k == 'int': return int(d['v'])
        if k == 'float': return FloatC(float(d['v']))
        if k == 'symbol': return Symb(d['name'])
        if k == 'namedint': return NamedInt(d['name'], d['v'])
        if k == 'class': return Cls(d['q'])
        if k == 'module': return Mod(d['name'])
        if k in ('func', 'method'):
            node = self.P.func_at(d['mod'], d['line'], d['name'])
            if node is None:
                if d['mod'] == 'six': return BI('six.' + d['name'])
                return BI(d['mod'] + '.' + d['name'])
            return Func(node, d['mod'], self.P.qual.get(id(node)))
        if k == 'tuple': return Tup([self.from_desc(st, x) for x in d['v']])
        if k == 'regex': return Regex(d['pattern'], d['flags'])
        if k == 'builtin': return BI(d.get('repr') if d['name'] in ('attrgetter', 'itemgetter') else d['name'])
        if k in ('list', 'set', 'dict', 'inst'):
            # a module-level object: a fixed pre-existing reference, contents arbitrary unless a contract says otherwise
            if key is None and 'id' not in d: return self.intern(Symb('inst:%r' % (d,)))
            r = z3.IntVal(d['id']) if 'id' in d else z3.Int('glob_%s_%s' % (key[1], key[2]))
            v = V.obj(r)
            if 'id' not in d: st.pc = st.pc + (r > 0,)
            q = {'list': '__builtin__:list', 'set': '__builtin__:set', 'dict': '__builtin__:dict'}.get(k) or d['cls']
            self.setclass(st, v, q)
            if key is not None: st.loc[key] = v
            return v
        raise Unsupported('global %r' % (d,))
    def store_name(self, st, fr, name, val):
        if name in fr.globals:
            st.loc[('g', fr.mod, name)] = val
            if st.writes is not None: st.writes.setdefault(('loc', 'g', fr.mod, name), []).append(None)
            return
        st.loc[(fr.sid, name)] = val
        if st.writes is not None: st.writes.setdefault(('loc', fr.sid, name), []).append(None)

    # ------------------------------------------------------------ expressions
    def evs(self, es, st, fr, acc=()):
        """evaluate a list of expressions left to right; yields (st, [vals]) or (st, Exc)"""
        if not es:
            yield st, list(acc); return
        for s, v in self.ev(es[0], st, fr):
            if isinstance(v, Exc): yield s, v
            else:
                for r in self.evs(es[1:], s, fr, tuple(acc) + (v,)): yield r
    def ev(self, e, st, fr):
        m = getattr(self, 'ev_' + e._, None)
        if m is None: raise Unsupported('expression %s' % e._)
        return m(e, st, fr)
    def ev_Num(self, e, st, fr):
        yield st, (FloatC(e.n.v) if e.n.k == 'f' else e.n.v)
    def ev_Str(self, e, st, fr):
        yield st, e.s.v
    def ev_Name(self, e, st, fr):
        yield st, self.lookup(st, fr, e.id)
    def ev_Tuple(self, e, st, fr):
        for s, v in self.evs(e.elts, st, fr):
            yield s, (v if isinstance(v, Exc) else Tup(v))
    def ev_List(self, e, st, fr):
        for s, v in self.evs(e.elts, st, fr):
            if isinstance(v, Exc): yield s, v
            else:
                s = s.clone(); yield s, self.newlist(s, v)
    def ev_Dict(self, e, st, fr):
        flat = [x for kv in zip(e.keys, e.values) for x in kv]
        for s, v in self.evs(flat, st, fr):
            if isinstance(v, Exc): yield s, v
            else:
                s = s.clone(); yield s, self.newdict(s, list(zip(v[0::2], v[1::2])))
    def ev_Lambda(self, e, st, fr):
        yield st, Func(e, fr.mod, None, fr.scopes, fr.cls)
    def ev_GeneratorExp(self, e, st, fr):
        # the first iterable is evaluated immediately
        for s, src in self.ev(e.generators[0].iter, st, fr):
            if isinstance(src, Exc): yield s, src; continue
            def run(E, st2, on_yield, e=e, fr=fr, src=src):
                st2 = st2.clone(); st2.sid += 1
                sid = self.newsid()
                f2 = Frame(None, sid, (sid,) + tuple(fr.scopes), fr.mod, fr.cls, on_yield)
                f2.locals = assigned([g.target for g in e.generators])[0]
                return E.run_comp(e.generators, 0, e.elt, st2, f2, on_yield, src)
            g = Gen(run); g.comp = (e, fr, src)
            yield s, g
    def run_comp(self, gens, i, elt, st, fr, on_elt, src0=None):
        """nested comprehension loops; on_elt(st, val) yields (st, flow)"""
        if i == len(gens):
            for s, v in self.ev(elt, st, fr):
                if isinstance(v, Exc): yield s, ('exc', v)
                else:
                    for r in on_elt(s, v): yield r
            return
        g = gens[i]
        def body(s, _v):
            def conds(s, ifs):
                if not ifs:
                    for r in self.run_comp(gens, i + 1, elt, s, fr, on_elt): yield r
                    return
                for s2, c in self.ev(ifs[0], s, fr):
                    if isinstance(c, Exc): yield s2, ('exc', c); continue
                    for s3, b in self.branch(s2, c, fr):
                        if isinstance(b, Exc): yield s3, ('exc', b)
                        elif b:
                            for r in conds(s3, ifs[1:]): yield r
                        else: yield s3, None
            return conds(s, g.ifs or [])
        if i == 0 and src0 is not None: srcs = [(st, src0)]
        else: srcs = self.ev(g.iter, st, fr)
        for s, src in srcs:
            if isinstance(src, Exc): yield s, ('exc', src); continue
            for r in self.loop_over(s, fr, g.target, src, body, None): yield r
    def ev_ListComp(self, e, st, fr):
        # fast path: pure element expression over a symbolic sequence
        for s, src in self.ev(e.generators[0].iter, st, fr):
            if isinstance(src, Exc): yield s, src; continue
            if len(e.generators) == 1 and not e.generators[0].ifs:
                r = self.pure_map(e.elt, e.generators[0].target, src, s, fr)
                if r is not None:
                    s2, n, arr = r
                    s2 = s2.clone()
                    yield s2, self.newlist_sym(s2, n, arr); continue
            s = s.clone()
            out = self.newlist(s)
            ref = self.ref(out)
            tmp = '$lc%d' % self.newsid()
            self.store_name(s, fr, tmp, out)
            fr.locals.add(tmp); self.lcout = ref      # for invariants of the comprehension's loop
            def on_elt(s2, v, ref=ref):
                s2 = s2.clone(); self.lappend(s2, ref, v); yield s2, None
            for s2, fl in self.run_comp(e.generators, 0, e.elt, s, fr, on_elt, src):
                if fl is None: yield s2, out
                elif fl[0] == 'exc': yield s2, fl[1]
                else: raise Unsupported('flow out of comprehension')
    def as_seq(self, src, st):
        """(length term, element getter) for a plain symbolic sequence; None otherwise"""
        src = self.from_v(src)
        if isinstance(src, ListIter):
            return self.llen(st, src.ref), self.larr(st, src.ref)
        if isinstance(src, SeqVal): return src.n, src.arr
        if isinstance(src, z3.ExprRef):
            q = self.classof(st, src)
            if q and self.islist(q):
                r = self.ref(src)
                return self.llen(st, r), self.larr(st, r)
        return None
    def islist(self, q):
        m = self.P.mro(q)
        return '__builtin__:list' in m or 'collections:deque' in m or q == '__builtin__:tuple'
    def pure_map(self, elt, target, src, st, fr):
        """list of elt over a symbolic sequence when elt is effect free on a single path"""
        if isinstance(src, z3.ExprRef) and self.classof(st, src) in ('__builtin__:set', '__builtin__:dict'): src = DictIter(self.ref(src), 'keys')
        if isinstance(src, DictIter):
            got = list(self.collect(st, src, fr))
            if len(got) != 1 or isinstance(got[0][1], Exc): return None
            st, src = got[0]
        if isinstance(src, z3.ExprRef) and self.classof(st, src) is None and 'iter' in self.iface and self.implied(st, V.is_obj(src)):
            got = list(self.iface['iter'](self, st, src))
            if len(got) == 1 and isinstance(got[0][1], ListIter): st, src = got[0]
        sq = self.as_seq(src, st)
        if sq is None: return None
        q = self.classof(st, src) if isinstance(src, z3.ExprRef) else None
        if q and self.P.class_attr(q, '__iter__')[1]: return None
        n, arr = sq
        if z3.is_int_value(n): return None
        j = self.fresh(I, 'j')
        s = st.clone()
        s.pc = s.pc + (j >= 0, j < n)
        x = z3.simplify(z3.Select(arr, j))
        if not self.bind_simple(target, x, s, fr): return None
        self.dry += 1
        try:
            res = list(self.ev(elt, s, fr))
        except (Unsupported, SpecMismatch):
            return None
        finally:
            self.dry -= 1
        if len(res) > 1 and not self.dry: res = [r for r in res if not isinstance(r[1], Exc) or self.check(r[0].pc) != z3.unsat]
        if len(res) != 1 or isinstance(res[0][1], Exc): return None
        s2, v = res[0]
        if any(s2.heap.get(k) is not s.heap.get(k) for k in s2.heap): return None
        try: v = self.to_v(v)
        except Unsupported: return None
        jj = z3.Int('j!m')
        return st, n, z3.Lambda([jj], z3.substitute(v, (j, jj)))
    def bind_simple(self, target, x, st, fr):
        if target._ == 'Name':
            self.store_name(st, fr, target.id, x); return True
        if target._ == 'Tuple':
            self.assumed.add('items unpacked by a comprehension have the arity of its target')
            for t in target.elts:
                if t._ != 'Name': return False
                self.store_name(st, fr, t.id, z3.simplify(V.hd(x))); x = z3.simplify(V.tl(x))
            return True
        return False
    def ev_BoolOp(self, e, st, fr):
        def go(vals, st):
            for s, v in self.ev(vals[0], st, fr):
                if isinstance(v, Exc) or len(vals) == 1:
                    yield s, v; continue
                for s2, b in self.branch(s, v, fr):
                    if isinstance(b, Exc): yield s2, b
                    elif b == (e.op._ == 'And'):
                        for r in go(vals[1:], s2): yield r
                    else: yield s2, v
        return go(e.values, st)
    def ev_UnaryOp(self, e, st, fr):
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(v, Exc): yield s, v
            elif e.op._ == 'Not':
                t = self.simple_truth(s, v, fr)
                if t is not None:
                    yield s, ((not t) if isinstance(t, bool) else bv(z3.Not(t)))
                else:
                    for s2, b in self.branch(s, v, fr):
                        yield s2, (b if isinstance(b, Exc) else (not b))
            elif e.op._ == 'USub':
                v = self.from_v(v)
                if isinstance(v, int): yield s, -v
                elif isinstance(v, FloatC): yield s, FloatC(-v.v)
                else:
                    for s2, x in self.need_int(s, v, 'TypeError'):
                        yield s2, (x if isinstance(x, Exc) else iv(-x))
            else: raise Unsupported('unary ' + e.op._)
    def simple_truth(self, st, v, fr):
        """truth without calling user code, or None when __nonzero__/__len__ may be involved"""
        vv = self.from_v(v)
        if isinstance(vv, z3.ExprRef):
            q = self.classof(st, vv)
            if q and (self.P.class_attr(q, '__nonzero__')[1] or self.P.class_attr(q, '__len__')[1]):
                return None
            if 'truth' in self.iface and self.ctor(vv) in ('obj', None) and not q:
                return None
        return self.truth(st, vv)
    def branch(self, st, v, fr=None):
        """split on bool(v); yields (st, bool) or (st, Exc)"""
        t = self.simple_truth(st, v, fr)
        if t is None:
            vv = self.from_v(v)
            q = self.classof(st, vv)
            if q:
                for nm in ('__nonzero__', '__len__'):
                    if self.P.class_attr(q, nm)[1]:
                        for s, r in self.call_attr(st, vv, nm, [], {}, fr):
                            if isinstance(r, Exc): yield s, r
                            else:
                                for x in self.split(s, self.truth(s, r)): yield x
                        return
            for x in self.iface['truth'](self, st, vv): yield x
            return
        for x in self.split(st, t): yield x
    def ev_IfExp(self, e, st, fr):
        for s, c in self.ev(e.test, st, fr):
            if isinstance(c, Exc): yield s, c; continue
            for s2, b in self.branch(s, c, fr):
                if isinstance(b, Exc): yield s2, b
                else:
                    for r in self.ev(e.body if b else e.orelse, s2, fr): yield r
    def ev_Compare(self, e, st, fr):
        def go(left, ops, comps, st):
            for s, r in self.ev(comps[0], st, fr):
                if isinstance(r, Exc): yield s, r; continue
                for s2, c in self.compare(s, ops[0]._, left, r, fr):
                    if isinstance(c, Exc) or len(ops) == 1: yield s2, c; continue
                    for s3, b in self.branch(s2, c, fr):
                        if isinstance(b, Exc): yield s3, b
                        elif b:
                            for x in go(r, ops[1:], comps[1:], s3): yield x
                        else: yield s3, c
        for s, l in self.ev(e.left, st, fr):
            if isinstance(l, Exc): yield s, l; continue
            for x in go(l, e.ops, e.comparators, s): yield x
    def mkbool(self, b):
        if isinstance(b, bool): return b
        b = z3.simplify(b)
        if z3.is_true(b): return True
        if z3.is_false(b): return False
        return V.bool(b)
    def compare(self, st, op, a, b, fr):
        if op in ('Is', 'IsNot'):
            av, bvv = self.from_v(a), self.from_v(b)
            if not isinstance(av, z3.ExprRef) and not isinstance(bvv, z3.ExprRef):
                r = z3.is_true(z3.simplify(self.to_v(av) == self.to_v(bvv)))
            else:
                r = self.is_(a, b)
            yield st, self.mkbool((not r if isinstance(r, bool) else z3.Not(r)) if op == 'IsNot' else r); return
        if op in ('Eq', 'NotEq'):
            av, bvv = self.from_v(a), self.from_v(b)
            for x in (av, bvv):
                if isinstance(x, z3.ExprRef) and self.classof(st, x):
                    q = self.classof(st, x)
                    m = self.P.class_attr(q, '__eq__')[1]
                    if m and x is av and 'eq' not in self.iface:
                        for s, r in self.call_attr(st, x, '__eq__', [bvv], {}, fr):
                            if isinstance(r, Exc): yield s, r
                            elif op == 'Eq': yield s, r
                            else:
                                for s2, t in self.branch(s, r, fr): yield s2, (t if isinstance(t, Exc) else not t)
                        return
            if isinstance(av, Tup) and isinstance(bvv, Tup):
                if len(av.items) != len(bvv.items): yield st, op == 'NotEq'; return
            if 'eq' in self.iface:
                r = self.iface['eq'](self, st, av, bvv)
            elif all(isinstance(x, z3.ExprRef) and self.classof(st, x) == '__builtin__:set' for x in (av, bvv)):
                k = z3.Const('k!se', V); sels = [z3.simplify(z3.Select(self.dom(st, self.ref(x)), k)) for x in (av, bvv)]
                pats = [x for x in sels if z3.is_select(x) and not z3.is_quantifier(x.arg(0)) and not self.quant(x)]
                r = z3.ForAll([k], sels[0] == sels[1], patterns=pats) if pats else z3.ForAll([k], sels[0] == sels[1])
            else: r = self.eq(st, av, bvv)
            yield st, self.mkbool(z3.Not(r) if op == 'NotEq' else r); return
        if op in ('In', 'NotIn'):
            for s, r in self.contains(st, b, a, fr):
                if isinstance(r, Exc): yield s, r
                elif op == 'In': yield s, r
                else:
                    t = self.truth(s, r)
                    yield s, self.mkbool((not t) if isinstance(t, bool) else z3.Not(t))
            return
        a, b = self.from_v(a), self.from_v(b)
        def num(x):
            if isinstance(x, bool): return z3.IntVal(int(x))
            if isinstance(x, int): return z3.IntVal(x)
            if isinstance(x, z3.ExprRef) and self.ctor(x) == 'int': return x.arg(0)
            return None
        f = {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[op]
        x, y = num(a), num(b)
        if x is not None and y is not None:
            yield st, self.mkbool(z3.simplify(f(x, y))); return
        av, bvv = self.to_v(a), self.to_v(b)
        bothnum = z3.And(self.isnum(av), self.isnum(bvv))
        if self.implied(st, bothnum):
            yield st, self.mkbool(f(self.numval(av), self.numval(bvv))); return
        # Python 2 orders arbitrary objects: an uninterpreted total pre-order, agreeing with numbers
        lt = self.uf('pylt', V, V, B); le = self.uf('pyle', V, V, B)
        g = {'Lt': lt(av, bvv), 'LtE': le(av, bvv), 'Gt': lt(bvv, av), 'GtE': le(bvv, av)}[op]
        self.assumed.add('comparison of values that are not both integers is an arbitrary but fixed relation (<, <=)')
        yield st, self.mkbool(z3.If(bothnum, f(self.numval(av), self.numval(bvv)), g))
    def contains(self, st, c, x, fr):
        c = self.from_v(c)
        if isinstance(c, Tup):
            if not c.items: yield st, False; return
            yield st, self.mkbool(z3.Or([z3.BoolVal(r) if isinstance(r, bool) else r for r in
                                         [self.eq(st, it, x) for it in c.items]])); return
        if isinstance(c, str):
            if isinstance(x, str): yield st, x in c; return
            yield st, self.mkbool(z3.Contains(z3.StringVal(z3str(c)), V.s(self.to_v(x)))); return
        if isinstance(c, KwDict):
            yield st, self.mkbool(z3.Or([z3.BoolVal(False)] + [self.eq(st, k, x) for k in c.d])); return
        if isinstance(c, DictIter) and c.what == 'keys':
            yield st, self.mkbool(self.dhas(st, c.ref, self.to_v(x))); return
        if isinstance(c, SeqVal):
            j = self.fresh(I, 'j')
            yield st, self.mkbool(z3.Exists([j], z3.And(0 <= j, j < c.n, self.eq(st, z3.Select(c.arr, j), x)))); return
        if isinstance(c, Gen):
            self.last_dict_order = None
            for s, l in self.collect(st, c, fr):
                if isinstance(l, Exc): yield s, l; continue
                s = s.clone(); n, arr = self.llen(s, self.ref(l)), self.larr(s, self.ref(l)); xv = self.to_v(x)
                if self.last_dict_order:                 # what the enumeration order says of this key
                    n2, ks, ix = self.last_dict_order; k = z3.Select(ix, xv)
                    s.pc = s.pc + (z3.Implies(z3.And(0 <= k, k < n2, z3.Select(ks, k) == xv), z3.Select(ks, z3.Select(ix, xv)) == xv),)
                yield s, self.mkbool(self.lcontains(s, n, arr, x))
            return
        if isinstance(c, z3.ExprRef):
            q = self.classof(st, c)
            if q:
                b, d = self.P.class_attr(q, '__contains__')
                if d is not None:
                    for r in self.call_attr(st, c, '__contains__', [x], {}, fr): yield r
                    return
                m = self.P.mro(q)
                if '__builtin__:dict' in m or '__builtin__:set' in m:
                    yield st, self.mkbool(self.dhas(st, self.ref(c), self.to_v(x))); return
                if self.islist(q):
                    r = self.ref(c); n, arr = self.llen(st, r), self.larr(st, r)
                    yield st, self.mkbool(self.lcontains(st, n, arr, x)); return
            if self.ctor(c) == 'str' or self.implied(st, V.is_str(c)):
                xs = self.to_v(x)
                if self.ctor(xs) == 'str' or self.implied(st, V.is_str(xs)):
                    yield st, self.mkbool(z3.Contains(V.s(c), V.s(xs))); return
            if 'contains' in self.iface:
                for r in self.iface['contains'](self, st, c, x): yield r
                return
        raise Unsupported('in on %r' % (c,))
    def lcontains(self, st, n, arr, x):
        if z3.is_int_value(n) and n.as_long() <= 12:
            return z3.Or([z3.BoolVal(False)] + [self.eq(st, z3.simplify(z3.Select(arr, z3.IntVal(i))), x) for i in range(n.as_long())])
        j = self.fresh(I, 'j')
        return z3.Exists([j], z3.And(0 <= j, j < n, self.eq(st, z3.Select(arr, j), x)))
    # ints
    def need_int(self, st, v, exc='TypeError'):
        v = self.from_v(v)
        if isinstance(v, bool): yield st, z3.IntVal(int(v)); return
        if isinstance(v, int): yield st, z3.IntVal(v); return
        if isinstance(v, NamedInt): yield st, z3.IntVal(v.v); return
        if isinstance(v, z3.ExprRef):
            if self.ctor(v) == 'int': yield st, v.arg(0); return
            if self.ctor(v) == 'bool': yield st, z3.If(v.arg(0), z3.IntVal(1), z3.IntVal(0)); return
            for s, b in self.split(st, self.isnum(v)):
                if b:
                    if self.implied(s, V.is_int(v)): yield s, V.i(v)
                    else: yield s, self.numval(v)
                else: yield s, Exc(exc)
            return
        yield st, Exc(exc)
    def ev_BinOp(self, e, st, fr):
        for s, vs in self.evs([e.left, e.right], st, fr):
            if isinstance(vs, Exc): yield s, vs; continue
            for r in self.binop(s, e.op._, vs[0], vs[1], fr): yield r
    def isstr(self, st, v):
        v = self.from_v(v)
        if isinstance(v, str): return True
        return isinstance(v, z3.ExprRef) and (self.ctor(v) == 'str' or (self.ctor(v) is None and not self.classof(st, v) and self.implied(st, V.is_str(v))))
    def strof(self, v):
        v = self.from_v(v)
        if isinstance(v, str): return z3.StringVal(z3str(v))
        return z3.simplify(V.s(v))
    def binop(self, st, op, a, b, fr):
        a, b = self.from_v(a), self.from_v(b)
        if isinstance(a, int) and isinstance(b, int) and not (op in ('FloorDiv', 'Mod') and b == 0):
            if op == 'Add': yield st, a + b; return
            if op == 'Sub': yield st, a - b; return
            if op == 'Mult': yield st, a * b; return
            if op == 'FloorDiv': yield st, a // b; return
            if op == 'Mod': yield st, a % b; return
        if op == 'Add':
            if isinstance(a, str) and isinstance(b, str): yield st, a + b; return
            if isinstance(a, Tup) and isinstance(b, Tup): yield st, Tup(a.items + b.items); return
            if self.isstr(st, a) and self.isstr(st, b):
                yield st, V.str(z3.simplify(z3.Concat(self.strof(a), self.strof(b)))); return
            if self.isstr(st, a) != self.isstr(st, b) and (self.isstr(st, a) or self.isstr(st, b)):
                o = b if self.isstr(st, a) else a
                if isinstance(o, z3.ExprRef):
                    for s, t in self.split(st, V.is_str(o)):
                        yield s, (V.str(z3.Concat(self.strof(a), self.strof(b))) if t else Exc('TypeError'))
                    return
                yield st, Exc('TypeError'); return
            sa, sb = self.as_seq(a, st), self.as_seq(b, st)
            if sa and sb:
                s = st.clone(); v = self.newlist(s); 
                j = z3.Int('j!c')
                self.lset(s, self.ref(v), z3.simplify(sa[0] + sb[0]), z3.Lambda([j], z3.If(j < sa[0], z3.Select(sa[1], j), z3.Select(sb[1], j - sa[0]))))
                yield s, v; return
        if op == 'Mod' and self.isstr(st, a):
            for r in self.str_format(st, a, b, fr): yield r
            return
        if op in ('BitAnd', 'BitOr'):
            av, bb = self.to_v(a), self.to_v(b)
            isb = z3.And(V.is_bool(av), V.is_bool(bb))
            for s, t in self.split(st, isb):
                if t:
                    x, y = z3.simplify(V.b(av)), z3.simplify(V.b(bb))
                    yield s, self.mkbool(z3.And(x, y) if op == 'BitAnd' else z3.Or(x, y))
                    continue
                isn = z3.And(self.isnum(av), self.isnum(bb))
                for s2, t2 in self.split(s, isn):
                    if t2:
                        f = self.uf('bit' + op, I, I, I)
                        x, y = self.numval(av), self.numval(bb)
                        r = f(x, y)
                        s2 = s2.clone()
                        s2.pc = s2.pc + (z3.Implies(z3.And(0 <= x, x <= 1, 0 <= y, y <= 1),
                                         r == (z3.If(z3.And(x == 1, y == 1), 1, 0) if op == 'BitAnd' else z3.If(z3.Or(x == 1, y == 1), 1, 0))),)
                        yield s2, V.int(r)
                    else:
                        if 'bitop' in self.iface:
                            for r in self.iface['bitop'](self, s2, op, av, bb): yield r
                        else: yield s2, Exc('TypeError')
            return
        if op in ('Sub', 'BitOr', 'BitAnd') and isinstance(a, z3.ExprRef) and self.classof(st, a) == '__builtin__:set':
            s = st.clone(); v = self.alloc(s, '__builtin__:set'); x = z3.Const('k!s', V)
            da, db = self.dom(s, self.ref(a)), self.dom(s, self.ref(b))
            self.dset(s, self.ref(v), z3.Lambda([x], z3.And(z3.Select(da, x), z3.Not(z3.Select(db, x)))), self.EMPTYMAP)
            yield s, v; return
        if isinstance(a, FloatC) or isinstance(b, FloatC): raise Unsupported('float arithmetic')
        for s, x in self.need_int(st, a):
            if isinstance(x, Exc): yield s, x; continue
            for s2, y in self.need_int(s, b):
                if isinstance(y, Exc): yield s2, y; continue
                if op == 'Add': yield s2, iv(z3.simplify(x + y))
                elif op == 'Sub': yield s2, iv(z3.simplify(x - y))
                elif op == 'Mult': yield s2, iv(z3.simplify(x * y))
                elif op in ('FloorDiv', 'Mod'):
                    for s3, t in self.split(s2, y == 0):
                        if t: yield s3, Exc('ZeroDivisionError'); continue
                        # z3 div/mod are Euclidean: equal to floor for positive divisors
                        for s4, pos in self.split(s3, y > 0):
                            if pos: yield s4, iv(z3.simplify(x / y if op == 'FloorDiv' else x % y))
                            else:
                                fd = z3.If(x % y == 0, x / y, x / y - 1)
                                yield s4, iv(fd if op == 'FloorDiv' else x - fd * y)
                else: raise Unsupported('binop ' + op)
    def str_format(self, st, a, b, fr):
        """'%' formatting: a function of the template and of what each directive receives"""
        b = self.from_v(b)
        if 'format' in self.ext:
            for r in self.ext['format'](self, st, a, b, fr): yield r
            return
        f = self.uf('fmt', S, V, S)
        names = self.format_names(a)
        if names and isinstance(b, z3.ExprRef) and self.classof(st, b):
            # an object used as mapping: each named item is read through its __getitem__, in the order of the template
            def read(s, k, d):
                if k == len(names):
                    r = self.exact_format(s, a, d)
                    if r is None: raise Unsupported('format of a mapping object')
                    yield s, r; return
                for s2, v in self.getitem(s, b, names[k], fr):
                    if isinstance(v, Exc): yield s2, v
                    else:
                        for r in read(s2, k + 1, dict(d, **{names[k]: v})): yield r
            for r in read(st, 0, {}): yield r
            return
        r = self.exact_format(st, a, b)
        if r is not None: yield st, r; return
        self.assumed.add("'%' formatting is a function of the template and its argument (uninterpreted)")
        yield st, V.str(f(self.strof(a), self.to_v(b)))
    def format_names(self, a):
        if not isinstance(a, str):
            a = z3.simplify(self.strof(a))
            if not z3.is_string_value(a): return None
            a = a.as_string()
        return re.findall(r'%\((\w+)\)', a)
    def exact_format(self, st, a, b):
        """template % (integers, text): exact for %i %d %s %0Ni %(name)s ..., None when it is not that simple"""
        if not isinstance(a, str):
            a = z3.simplify(self.strof(a))
            if not z3.is_string_value(a): return None
            a = a.as_string()
        items = b.items if isinstance(b, Tup) else [b]
        out, pos, n = [], 0, 0
        for m in re.finditer(r'%(?:\((\w+)\))?(0(\d))?([ids%])', a):
            if m.start() > pos: out.append(z3.StringVal(z3str(a[pos:m.start()])))
            if '%' in a[pos:m.start()]: return None
            pos = m.end()
            if m.group(4) == '%': out.append(z3.StringVal('%')); continue
            if m.group(1):
                if not isinstance(b, dict) or m.group(1) not in b: return None
                x = b[m.group(1)]
            else:
                if n >= len(items): return None
                x = items[n]; n += 1
            v = self.to_v(x)
            if self.isstr(st, v) and m.group(4) == 's' and not m.group(2): out.append(self.strof(x)); continue
            if not self.implied(st, V.is_int(v)): return None
            i = V.i(v); neg = z3.Concat(z3.StringVal('-'), z3.IntToStr(-i))
            if m.group(2):
                w = int(m.group(3))
                if not self.implied(st, z3.And(i >= 0, i < 10 ** w)): return None
                out.extend(digits(i, w))
            else: out.append(z3.If(i < 0, neg, z3.IntToStr(i)))
        if '%' in a[pos:]: return None
        if pos < len(a): out.append(z3.StringVal(z3str(a[pos:])))
        if not isinstance(b, dict) and n != len(items): return None
        if not out: return ''
        return V.str(z3.simplify(z3.Concat(out)) if len(out) > 1 else z3.simplify(out[0]))
    # attribute / subscript
    def ev_Attribute(self, e, st, fr):
        for s, o in self.ev(e.value, st, fr):
            if isinstance(o, Exc): yield s, o
            else:
                for r in self.getattr(s, o, e.attr, fr): yield r
    def ev_Subscript(self, e, st, fr):
        for s, o in self.ev(e.value, st, fr):
            if isinstance(o, Exc): yield s, o; continue
            for s2, i in self.ev_slice(e.slice, s, fr):
                if isinstance(i, Exc): yield s2, i
                else:
                    for r in self.getitem(s2, o, i, fr, e.slice._ == 'Slice'): yield r
    def ev_slice(self, sl, st, fr):
        if sl._ == 'Index':
            return self.ev(sl.value, st, fr)
        if sl._ == 'Slice':
            def go():
                parts = [x for x in (sl.lower, sl.upper, sl.step)]
                for s, vs in self.evs([p for p in parts if p is not None], st, fr):
                    if isinstance(vs, Exc): yield s, vs; continue
                    it = iter(vs)
                    yield s, SliceV(*[(next(it) if p is not None else None) for p in parts])
            return go()
        raise Unsupported('slice kind')
    def ev_Yield(self, e, st, fr):
        f = fr
        if f.on_yield is None: raise Unsupported('yield outside generator')
        def go(st, v):
            for s, fl in f.on_yield(st, v):
                if fl is None: yield s, None
                else: yield s, Exc('$flow', (), fl)
        if e.value is None:
            for r in go(st, None): yield r
            return
        for s, v in self.ev(e.value, st, fr):
            if isinstance(v, Exc): yield s, v
            else:
                for r in go(s, v): yield r
    # calls
    def ev_Call(self, e, st, fr):
        for s, f in self.ev(e.func, st, fr):
            if isinstance(f, Exc): yield s, f; continue
            for s2, vs in self.evs(e.args or [], s, fr):
                if isinstance(vs, Exc): yield s2, vs; continue
                kws = e.keywords or []
                for s3, kv in self.evs([k.value for k in kws], s2, fr):
                    if isinstance(kv, Exc): yield s3, kv; continue
                    kw = dict((k.arg, v) for k, v in zip(kws, kv))
                    for s4, extra in self.star(e, s3, fr):
                        if isinstance(extra, Exc): yield s4, extra; continue
                        pos, kd = extra
                        if isinstance(kd, KwDict):
                            kw2 = dict(kw); kw2.update(kd.d); star = None
                        else: kw2, star = kw, kd
                        for r in self.call(s4, f, list(vs) + pos if not isinstance(pos, SeqVal) else list(vs), kw2, fr,
                                           star=star, starpos=pos if isinstance(pos, SeqVal) else None): yield r
    def star(self, e, st, fr):
        def a(st):
            if e.starargs is None: yield st, []; return
            for s, v in self.ev(e.starargs, st, fr):
                v = self.from_v(v)
                if isinstance(v, Exc): yield s, v
                elif isinstance(v, Tup): yield s, list(v.items)
                elif isinstance(v, SeqVal): yield s, v
                elif isinstance(v, z3.ExprRef):
                    sq = self.as_seq(v, s)
                    if sq and z3.is_int_value(sq[0]):
                        yield s, [z3.simplify(z3.Select(sq[1], z3.IntVal(i))) for i in range(sq[0].as_long())]
                    elif sq: yield s, SeqVal(*sq)
                    else: raise Unsupported('*args of unknown value')
                else: raise Unsupported('*args')
        for s, p in a(st):
            if isinstance(p, Exc): yield s, p; continue
            if e.kwargs is None: yield s, (p, KwDict({})); continue
            for s2, v in self.ev(e.kwargs, s, fr):
                yield s2, (v if isinstance(v, Exc) else (p, v))

    # ------------------------------------------------------------ statements
    def block(self, body, st, fr, i=0):
        if i == len(body):
            yield st, None; return
        for s, fl in self.stmt(body[i], st, fr):
            if fl is None:
                for r in self.block(body, s, fr, i + 1): yield r
            else: yield s, fl
    def stmt(self, n, st, fr):
        m = getattr(self, 'st_' + n._, None)
        if m is None: raise Unsupported('statement %s' % n._)
        return m(n, st, fr)
    def excflow(self, v):
        if v.cls == '$flow': return ('outer', v.val)
        return ('exc', v)
    def st_Expr(self, n, st, fr):
        if n.value._ == 'Str':
            yield st, None; return
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc): yield s, self.excflow(v)
            elif isinstance(v, Gen): yield s, None
            else: yield s, None
    def st_Pass(self, n, st, fr): yield st, None
    def st_Global(self, n, st, fr):
        fr.globals.update(n.names); yield st, None
    def st_Break(self, n, st, fr): yield st, ('break',)
    def st_Continue(self, n, st, fr): yield st, ('cont',)
    def st_Return(self, n, st, fr):
        if n.value is None: yield st, ('ret', None); return
        for s, v in self.ev(n.value, st, fr):
            yield s, (self.excflow(v) if isinstance(v, Exc) else ('ret', v))
    def st_Assign(self, n, st, fr):
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Exc): yield s, self.excflow(v); continue
            for r in self.assign_all(n.targets, v, s, fr): yield r
    def assign_all(self, targets, v, st, fr):
        if not targets: yield st, None; return
        for s, fl in self.assign(targets[0], v, st, fr):
            if fl is None:
                for r in self.assign_all(targets[1:], v, s, fr): yield r
            else: yield s, fl
    def assign(self, t, v, st, fr):
        if t._ == 'Name':
            s = st.clone(); self.store_name(s, fr, t.id, v); yield s, None; return
        if t._ in ('Tuple', 'List'):
            for s, items in self.unpack(st, v, len(t.elts)):
                if isinstance(items, Exc): yield s, ('exc', items); continue
                def go(i, s):
                    if i == len(t.elts): yield s, None; return
                    for s2, fl in self.assign(t.elts[i], items[i], s, fr):
                        if fl is None:
                            for r in go(i + 1, s2): yield r
                        else: yield s2, fl
                for r in go(0, s): yield r
            return
        if t._ == 'Attribute':
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Exc): yield s, self.excflow(o); continue
                for s2, r in self.setattr(s, o, t.attr, v, fr):
                    yield s2, (self.excflow(r) if isinstance(r, Exc) else None)
            return
        if t._ == 'Subscript':
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Exc): yield s, self.excflow(o); continue
                for s2, i in self.ev_slice(t.slice, s, fr):
                    if isinstance(i, Exc): yield s2, self.excflow(i); continue
                    for s3, r in self.setitem(s2, o, i, v, fr):
                        yield s3, (self.excflow(r) if isinstance(r, Exc) else None)
            return
        raise Unsupported('assignment target ' + t._)
    def unpack(self, st, v, n):
        v = self.from_v(v)
        if isinstance(v, Tup):
            yield st, (v.items if len(v.items) == n else Exc('ValueError')); return
        if isinstance(v, z3.ExprRef):
            sq = self.as_seq(v, st)
            if sq is not None:
                for s, b in self.split(st, sq[0] == n):
                    if b: yield s, [z3.simplify(z3.Select(sq[1], z3.IntVal(i))) for i in range(n)]
                    else: yield s, Exc('ValueError')
                return
            cond = []; x = v; items = []
            for i in range(n):
                cond.append(V.is_cons(x)); items.append(z3.simplify(V.hd(x))); x = z3.simplify(V.tl(x))
            cond.append(x == NIL)
            for s, b in self.split(st, z3.And(cond)):
                if b: yield s, items
                else:
                    for s2, b2 in self.split(s, z3.Or(V.is_cons(v), v == NIL)):
                        yield s2, Exc('ValueError' if b2 else 'TypeError')
            return
        if isinstance(v, KwDict) or v is None: yield st, Exc('TypeError'); return
        raise Unsupported('unpack %r' % (v,))
    def st_AugAssign(self, n, st, fr):
        t = n.target
        if t._ == 'Name':
            cur = self.lookup(st, fr, t.id)
            if isinstance(cur, Exc): yield st, ('exc', cur); return
            for s, v in self.ev(n.value, st, fr):
                if isinstance(v, Exc): yield s, self.excflow(v); continue
                for s2, r in self.augop(s, n.op._, cur, v, fr):
                    if isinstance(r, Exc): yield s2, self.excflow(r); continue
                    s2 = s2.clone(); self.store_name(s2, fr, t.id, r); yield s2, None
            return
        if t._ == 'Attribute':
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Exc): yield s, self.excflow(o); continue
                for s1, cur in self.getattr(s, o, t.attr, fr):
                    if isinstance(cur, Exc): yield s1, self.excflow(cur); continue
                    for s2, v in self.ev(n.value, s1, fr):
                        if isinstance(v, Exc): yield s2, self.excflow(v); continue
                        for s3, r in self.augop(s2, n.op._, cur, v, fr):
                            if isinstance(r, Exc): yield s3, self.excflow(r); continue
                            for s4, x in self.setattr(s3, o, t.attr, r, fr):
                                yield s4, (self.excflow(x) if isinstance(x, Exc) else None)
            return
        raise Unsupported('augmented assignment to ' + t._)
    def augop(self, st, op, cur, v, fr):
        c = self.from_v(cur)
        if isinstance(c, z3.ExprRef) and op == 'Add' and self.classof(st, c) and self.islist(self.classof(st, c)):
            sq = self.as_seq(v, st)
            if sq is None: raise Unsupported('list += ?')
            s = st.clone(); self.lextend(s, self.ref(c), sq[0], sq[1]); yield s, c; return
        if isinstance(c, z3.ExprRef) and op == 'BitOr' and self.classof(st, c) == '__builtin__:set':
            d = self.from_v(v)
            if isinstance(d, z3.ExprRef) and self.classof(st, d) in ('__builtin__:set',):
                s = st.clone(); x = z3.Const('k!s', V)
                da, db = self.dom(s, self.ref(c)), self.dom(s, self.ref(d))
                self.dset(s, self.ref(c), z3.Lambda([x], z3.Or(z3.Select(da, x), z3.Select(db, x))), self.EMPTYMAP)
                yield s, c; return
        for r in self.binop(st, op, cur, v, fr): yield r
    def st_Delete(self, n, st, fr):
        def go(i, st):
            if i == len(n.targets): yield st, None; return
            t = n.targets[i]
            if t._ == 'Name':
                s = st.clone(); s.loc.pop((fr.sid, t.id), None)
                for r in go(i + 1, s): yield r
            elif t._ == 'Subscript':
                for s, o in self.ev(t.value, st, fr):
                    if isinstance(o, Exc): yield s, self.excflow(o); continue
                    for s2, ix in self.ev_slice(t.slice, s, fr):
                        if isinstance(ix, Exc): yield s2, self.excflow(ix); continue
                        for s3, r in self.delitem(s2, o, ix, fr):
                            if isinstance(r, Exc): yield s3, self.excflow(r)
                            else:
                                for x in go(i + 1, s3): yield x
            elif t._ == 'Attribute':
                for s, o in self.ev(t.value, st, fr):
                    s = s.clone(); self.setf(s, self.ref(o), t.attr, ABSENT)
                    for x in go(i + 1, s): yield x
            else: raise Unsupported('del ' + t._)
        return go(0, st)
    def st_If(self, n, st, fr):
        for s, c in self.ev(n.test, st, fr):
            if isinstance(c, Exc): yield s, self.excflow(c); continue
            for s2, b in self.branch(s, c, fr):
                if isinstance(b, Exc): yield s2, self.excflow(b); continue
                for r in self.block(n.body if b else (n.orelse or []), s2, fr): yield r
    def st_Assert(self, n, st, fr):
        for s, c in self.ev(n.test, st, fr):
            if isinstance(c, Exc): yield s, self.excflow(c); continue
            for s2, b in self.branch(s, c, fr):
                if isinstance(b, Exc): yield s2, self.excflow(b)
                elif b: yield s2, None
                else: yield s2, ('exc', Exc('AssertionError'))
    def st_FunctionDef(self, n, st, fr):
        s = st.clone()
        self.store_name(s, fr, n.name, Func(n, fr.mod, self.P.qual.get(id(n)), fr.scopes, fr.cls))
        if n.decorator_list: raise Unsupported('decorated local function')
        yield s, None
    def st_ClassDef(self, n, st, fr):
        s = st.clone()
        bases = []
        for b in n.bases:
            r = list(self.ev(b, s, fr))
            bases.append(r[0][1])
        c = Cls('local:%s' % n.name); c.bases = bases; c.node = n
        self.store_name(s, fr, n.name, c)
        yield s, None
    def st_Import(self, n, st, fr):
        s = st.clone()
        for a in n.names:
            nm = (a.asname or a.name).split('.')[0]
            self.store_name(s, fr, nm, Mod(nm if not a.asname else a.name))
        yield s, None
    def st_Raise(self, n, st, fr):
        if n.type is None:
            yield st, ('exc', st.exc or Exc('RuntimeError')); return
        for s, v in self.ev(n.type, st, fr):
            if isinstance(v, Exc) and getattr(v, 'instance', False) is False:
                yield s, self.excflow(v); continue
            yield s, ('exc', self.mkexc(v))
    def mkexc(self, v):
        if isinstance(v, Exc): return Exc(v.cls, v.args)
        if isinstance(v, Cls): return Exc(v.short)
        if isinstance(v, Bound) and isinstance(v.f, Exc): return v.f
        if isinstance(v, ExcVal): return v.exc
        raise Unsupported('raise %r' % (v,))
    def exc_matches(self, cls, names):
        c = cls
        while c:
            if c in names: return True
            c = EXC_BASE.get(c)
        return False
    def st_TryExcept(self, n, st, fr):
        for s, fl in self.block(n.body, st, fr):
            if fl is None:
                for r in self.block(n.orelse or [], s, fr): yield r
            elif fl[0] == 'exc':
                for r in self.handle(n.handlers, s, fl[1], fr): yield r
            else: yield s, fl
    def handle(self, handlers, st, exc, fr):
        for h in handlers:
            if h.type is None: names = None
            else:
                t = list(self.ev(h.type, st, fr))
                if len(t) != 1: raise Unsupported('except expression')
                tv = self.from_v(t[0][1])
                items = tv.items if isinstance(tv, Tup) else [tv]
                names = []
                for x in items:
                    x = self.from_v(x)
                    if not isinstance(x, Cls): raise Unsupported('except %r' % (x,))
                    names.append(x.short)
            if names is None or self.exc_matches(exc.cls, names):
                s = st.clone()
                old = s.exc; s.exc = exc
                if h.name is not None:
                    if h.name._ != 'Name': raise Unsupported('except target')
                    self.store_name(s, fr, h.name.id, ExcVal(exc))
                for s2, fl in self.block(h.body, s, fr):
                    s2.exc = old
                    yield s2, fl
                return
        yield st, ('exc', exc)
    def st_TryFinally(self, n, st, fr):
        for s, fl in self.block(n.body, st, fr):
            for s2, fl2 in self.block(n.finalbody, s, fr):
                yield s2, (fl2 if fl2 is not None else fl)
    def st_With(self, n, st, fr):
        for s, m in self.ev(n.context_expr, st, fr):
            if isinstance(m, Exc): yield s, self.excflow(m); continue
            for s1, v in self.call_attr(s, m, '__enter__', [], {}, fr):
                if isinstance(v, Exc): yield s1, self.excflow(v); continue
                if n.optional_vars is not None:
                    if n.optional_vars._ != 'Name': raise Unsupported('with target')
                    s1 = s1.clone(); self.store_name(s1, fr, n.optional_vars.id, v)
                for s2, fl in self.block(n.body, s1, fr):
                    bad = fl is not None and fl[0] == 'exc'
                    for s3, r in self.call_attr(s2, m, '__exit__', [ExcVal(fl[1])] * 3 if bad else [None] * 3, {}, fr):
                        if isinstance(r, Exc): yield s3, self.excflow(r); continue
                        if not bad: yield s3, fl; continue
                        for s4, b in self.branch(s3, r, fr): yield s4, (self.excflow(b) if isinstance(b, Exc) else None if b else fl)
    # ------------------------------------------------------------ loops
    def newsid(self):
        self.fresh_n += 1
        return self.fresh_n
    def st_For(self, n, st, fr):
        for s, src in self.ev(n.iter, st, fr):
            if isinstance(src, Exc): yield s, self.excflow(src); continue
            def body(s2, v): return self.block(n.body, s2, fr)
            for r in self.loop_over(s, fr, n.target, src, body, n.orelse, n): yield r
    def finish_loop(self, s, fl, fr, orelse):
        """flow of a loop statement: break/continue are consumed"""
        if fl is None:
            if orelse:
                for r in self.block(orelse, s, fr): yield r
            else: yield s, None
        elif fl[0] == 'break': yield s, None
        else: yield s, fl
    def loop_over(self, st, fr, target, src, body, orelse, node=None):
        """for target in src: body.  body(st, v) yields (st, flow) after target is bound"""
        def step(s, v):
            for s1, fl in self.assign(target, v, s, fr):
                if fl is not None: yield s1, fl; continue
                for s2, f2 in body(s1, v):
                    yield s2, (None if f2 == ('cont',) else f2)
        for s, fl in self.iterate(st, src, step, fr, node):
            for r in self.finish_loop(s, fl, fr, orelse): yield r
    def iterate(self, st, src, step, fr, node=None):
        """drives step(st, v) over the source; yields (st, flow) with flow None when exhausted"""
        src = self.from_v(src)
        if isinstance(src, str): src = Tup(list(src))
        if isinstance(src, Tup):
            for r in self.unrolled(src.items, st, step): yield r
            return
        if isinstance(src, Gen):
            for s, fl in src.run(self, st, lambda s, v: self._gstep(step, s, v)):
                if fl is not None and fl[0] == 'outer': yield s, fl[1]
                elif fl is not None and fl[0] == 'ret': yield s, None
                elif fl is not None and fl[0] == 'exc' and fl[1].cls == 'StopIteration': yield s, None
                else: yield s, fl
            return
        if isinstance(src, Chain):
            def go(i, s):
                if i == len(src.srcs): yield s, None; return
                for s2, fl in self.iterate(s, src.srcs[i], step, fr, node):
                    if fl is None:
                        for r in go(i + 1, s2): yield r
                    else: yield s2, fl
            for r in go(0, st): yield r
            return
        if isinstance(src, Zip):
            items = [self.from_v(x) for x in src.srcs]
            fixed = []
            for x in items:
                if isinstance(x, Tup): fixed.append(x.items)
                else:
                    sq = self.as_seq(x, st)
                    if sq and z3.is_int_value(sq[0]):
                        fixed.append([z3.simplify(z3.Select(sq[1], z3.IntVal(i))) for i in range(sq[0].as_long())])
                    elif sq: fixed.append(sq)
                    else: raise Unsupported('zip of %r' % (x,))
            if all(isinstance(x, list) for x in fixed):
                for r in self.unrolled([Tup(list(t)) for t in zip(*fixed)], st, step): yield r
                return
            known = [len(x) for x in fixed if isinstance(x, list)]
            if not known: raise Unsupported('zip of symbolic sequences')
            m = min(known)
            conds = [x[0] for x in fixed if not isinstance(x, list)]
            def go(i, s):
                if i == m: yield s, None; return
                for s1, b in self.split(s, z3.And([c > i for c in conds])):
                    if not b: yield s1, None; continue
                    v = Tup([x[i] if isinstance(x, list) else z3.simplify(z3.Select(x[1], z3.IntVal(i))) for x in fixed])
                    for s2, fl in step(s1, v):
                        if fl is None:
                            for r in go(i + 1, s2): yield r
                        else: yield s2, fl
            for r in go(0, st): yield r
            return
        if isinstance(src, Enum):
            for r in self.iter_enum(st, src, step, fr, node): yield r
            return
        if isinstance(src, KwDict):
            for r in self.unrolled(list(src.d), st, step): yield r
            return
        # symbolic, indexable source: (length(st), item(st, i))
        acc = self.accessor(st, src, fr)
        if acc is None:
            gen = self.user_iter(st, src, fr)
            if gen is not None:
                for s, g in gen:
                    if isinstance(g, Exc): yield s, ('exc', g)
                    else:
                        for r in self.iterate(s, g, step, fr, node): yield r
                return
            raise Unsupported('iteration over %r' % (src,))
        if isinstance(acc, tuple) and isinstance(acc[0], St):
            st, acc = acc
        for r in self.symloop(st, acc, step, fr, node, src): yield r
    def _gstep(self, step, s, v):
        for s2, fl in step(s, v): yield s2, fl
    def user_iter(self, st, src, fr):
        if isinstance(src, z3.ExprRef):
            q = self.classof(st, src)
            if q and self.P.class_attr(q, '__iter__')[1]:
                return self.call_attr(st, src, '__iter__', [], {}, fr)
            if q is None and 'iter' in self.iface:
                return self.iface['iter'](self, st, src)
        return None
    def iter_enum(self, st, src, step, fr, node):
        inner = self.from_v(src.src)
        if isinstance(inner, str): inner = Tup(list(inner))
        if isinstance(inner, Tup):
            for r in self.unrolled([Tup([i, x]) for i, x in enumerate(inner.items)], st, step): yield r
            return
        acc = self.accessor(st, inner, fr)
        if acc is None:
            gen = self.user_iter(st, inner, fr)
            if gen is None: raise Unsupported('enumerate of %r' % (inner,))
            for s, g in gen:
                if isinstance(g, Exc): yield s, ('exc', g)
                else:
                    for r in self.iter_enum(s, Enum(g), step, fr, node): yield r
            return
        if isinstance(acc, tuple) and isinstance(acc[0], St): st, acc = acc
        ln, it = acc
        acc2 = (ln, lambda s, i: Tup([iv(i), it(s, i)]))
        for r in self.symloop(st, acc2, step, fr, node, src): yield r
    def accessor(self, st, src, fr):
        if isinstance(src, SeqVal):
            return (lambda s: src.n), (lambda s, i: z3.simplify(z3.Select(src.arr, i)))
        if isinstance(src, Rev):
            x = self.from_v(src.src)
            if isinstance(x, Tup): return None
            sq = self.as_seq(x, st)
            if sq is None: return None
            n, arr = sq
            return (lambda s: n), (lambda s, i: self.aget(s, arr, z3.simplify(n - 1 - i)))
        if isinstance(src, Rng):
            lo, hi = src.lo, src.hi
            n = z3.simplify(z3.If(hi > lo, hi - lo, 0))
            return (lambda s: n), (lambda s, i: iv(z3.simplify(lo + i)))
        if isinstance(src, DictIter):
            return self.dict_accessor(st, src)
        ref = None
        if isinstance(src, ListIter): ref = src.ref
        elif isinstance(src, z3.ExprRef):
            q = self.classof(st, src)
            if q:
                if self.P.class_attr(q, '__iter__')[1]: return None
                if self.islist(q): ref = self.ref(src)
                else:
                    m = self.P.mro(q)
                    if '__builtin__:dict' in m or '__builtin__:set' in m:
                        return self.dict_accessor(st, DictIter(self.ref(src), 'keys'))
            elif self.ctor(src) == 'cons' or self.ctor(src) == 'nil': 
                return None
        if ref is None: return None
        return (lambda s: self.llen(s, ref)), (lambda s, i: self.lget(s, ref, i))
    def dict_accessor(self, st, src):
        """keys in an arbitrary, duplicate-free order that covers exactly the domain"""
        st = st.clone()
        d, m = self.dom(st, src.ref), self.dmap(st, src.ref)
        n = self.fresh(I, 'dn'); ks = self.fresh(AV, 'dk'); ix = self.fresh(z3.ArraySort(V, I), 'dix')
        j = z3.Int('j!d'); k = z3.Const('k!d', V)
        st.pc = st.pc + (n >= 0,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(d, z3.Select(ks, j)), z3.Select(ix, z3.Select(ks, j)) == j)), patterns=[z3.Select(ks, j)]),
            z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.And(0 <= z3.Select(ix, k), z3.Select(ix, k) < n, z3.Select(ks, z3.Select(ix, k)) == k)), patterns=[z3.Select(ix, k)]))
        self.last_dict_order = (n, ks, ix)
        def item(s, i):
            kk = z3.simplify(z3.Select(ks, i))
            if any(src.ref.eq(r) for r in self.textkeyed): s.pc = s.pc + (z3.Implies(z3.And(0 <= i, i < n), V.is_str(kk)),)
            if src.what == 'keys': return kk
            vv = z3.simplify(z3.Select(m, kk))
            return vv if src.what == 'values' else Tup([kk, vv])
        return st, ((lambda s: n), item)
    def unrolled(self, items, st, step):
        def go(i, s):
            if i == len(items): yield s, None; return
            for s2, fl in step(s, items[i]):
                if fl is None:
                    for r in go(i + 1, s2): yield r
                else: yield s2, fl
        return go(0, st)
    def symloop(self, st, acc, step, fr, node, src):
        ln, item = acc
        n0 = ln(st)
        if z3.is_int_value(n0) and n0.as_long() <= 12 and isinstance(src, (Rng,)):
            def go0(i, s):
                if i == n0.as_long(): yield s, None; return
                for s2, fl in step(s, item(s, z3.IntVal(i))):
                    if fl is None:
                        for r in go0(i + 1, s2): yield r
                    else: yield s2, fl
            for r in go0(0, st): yield r
            return
        spec = self.find_spec(st, fr, node, src, ln)
        if spec is None and z3.is_int_value(n0) and n0.as_long() <= 12:
            # fixed-length list: executed completely (re-reading the length, which the body may change)
            def go1(i, s, budget=40):
                if budget == 0: raise Unsupported('list grows without bound')
                for s1, b in self.split(s, ln(s) > i):
                    if not b: yield s1, None; continue
                    for s2, fl in step(s1, item(s1, z3.IntVal(i))):
                        if fl is None:
                            for r in go1(i + 1, s2, budget - 1): yield r
                        else: yield s2, fl
            for r in go1(0, st): yield r
            return
        def head(s, i):
            for s1, b in self.split(s, i < ln(s)):
                if b: yield s1, item(s1, i)
                else: yield s1, '$stop'
        for r in self.cut_loop(st, spec, head, step, fr, node, src, True): yield r
    def st_While(self, n, st, fr):
        def head(s, i):
            for s1, c in self.ev(n.test, s, fr):
                if isinstance(c, Exc): yield s1, c; continue
                for s2, b in self.branch(s1, c, fr):
                    if isinstance(b, Exc): yield s2, b
                    else: yield s2, (None if b else '$stop')
        def step(s, v):
            for s2, fl in self.block(n.body, s, fr):
                yield s2, (None if fl == ('cont',) else fl)
        spec = self.find_spec(st, fr, n, None, None)
        for s, fl in self.cut_loop(st, spec, head, step, fr, n, None, False):
            for r in self.finish_loop(s, fl, fr, n.orelse): yield r
    def find_spec(self, st, fr, node, src, ln):
        for sp in self.loopspecs:
            try:
                if sp.matches(self, st, fr, node, src): return sp
            except (SpecMismatch, KeyError):
                continue
        return None
    def cut_loop(self, st, spec, head, step, fr, node, src, indexed):
        if spec is None:
            for r in self.unroll_loop(st, head, step, fr, node): yield r
            return
        line = getattr(node, 'lineno', 0)
        tag = '%s.loop' % spec.name
        L0 = LoopCtx(self, st, st, fr, z3.IntVal(0), src, spec)
        for nm, f in spec.inv(L0):
            self.oblige(st, '%s.%s.entry' % (tag, nm), f, 'inv')
        mark = self.fresh_n
        writes = self.loop_writes(st, spec, head, step, fr, src, mark)
        s = st.clone()
        i = self.fresh(I, 'it')
        old_alloc = s.alloc
        s.alloc = self.fresh(I, 'alloc')
        s.pc = s.pc + (i >= 0, s.alloc >= old_alloc)
        self.havoc(s, writes, st)
        L1 = LoopCtx(self, st, s, fr, i, src, spec)
        for nm, f in spec.inv(L1): self.assume(s, f)
        for s1, v in head(s, i):
            if isinstance(v, Exc): yield s1, self.excflow(v); continue
            if isinstance(v, str) and v == '$stop':
                yield s1, None; continue
            pre = s1
            for s2, fl in step(s1.clone(), v):
                if fl is None:
                    L2 = LoopCtx(self, st, s2, fr, z3.simplify(i + 1), src, spec, L1)
                    if spec.lemmas:
                        for k, f in enumerate(spec.lemmas(L1, L2)):
                            # proved on its own, without the path condition, then used
                            keep, s2.pc = s2.pc, ()
                            self.oblige(s2, '%s.lemma%d' % (tag, k), f, 'lemma')
                            s2.pc = keep
                            self.assume(s2, f)
                    for nm, f in spec.inv(L2):
                        self.oblige(s2, '%s.%s.preserved' % (tag, nm), f, 'inv')
                    if spec.variant:
                        a, b = spec.variant(L1), spec.variant(L2)
                        self.oblige(s2, '%s.decreases' % tag, z3.And(a >= 0, b < a), 'inv')
                else: yield s2, fl
    def havoc(self, s, writes, st0):
        for w, refs in sorted(writes.items(), key=lambda x: repr(x[0])):
            if isinstance(w, tuple):
                key = ('g', w[2], w[3]) if w[1] == 'g' else (w[1], w[2])
                if key in st0.loc:
                    c = self.fresh(V, 'lv_' + str(w[-1]))
                    s.pc = s.pc + (z3.Implies(V.is_obj(c), V.r(c) >= -s.alloc), c != ABSENT)
                    s.loc[key] = c
                continue
            if w == 'tn' or w.startswith('gn.'):
                s.heap[w] = self.fresh(comp_sort(w), 'hv_' + w)
                continue
            if refs and all(r is not None for r in refs):
                base = self.comp(s, w)
                if any(not z3.is_expr(r) for r in refs):
                    hv = self.havoc_comp(s, w); j = z3.Int('j!n')
                    base = z3.Lambda([j], z3.If(j < -st0.alloc, z3.Select(hv, j), z3.Select(base, j)))
                uniq = {}
                for r in refs:
                    if z3.is_expr(r): uniq[r.get_id()] = r
                for r in uniq.values():
                    x = self.fresh(comp_sort(w).range(), 'hv_' + w)
                    if x.sort() == V: s.pc = s.pc + (z3.Implies(V.is_obj(x), V.r(x) >= -s.alloc),)
                    base = z3.Store(base, r, x)
                s.heap[w] = base
            else:
                s.heap[w] = self.havoc_comp(s, w)
    def stable(self, r, mark):
        """does the reference term mention only constants created before the loop was entered"""
        seen = set(); stack = [r]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): return False
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm:
                    t = nm.rsplit('!', 1)[1]
                    if not t.isdigit() or int(t) > mark: return False
            stack.extend(x.children())
        return True
    def loop_writes(self, st, spec, head, step, fr, src, mark):
        """fixpoint of the locations one iteration may write: {component or local: [refs]}, where a ref is
        a term fixed before the loop, 'new' (only objects allocated by the loop) or None (anything)"""
        acc = {}
        sid0 = self.newsid()
        self.dry += 1
        try:
            for rnd in range(8):
                s = st.clone()
                old_alloc = s.alloc
                s.alloc = self.fresh(I, 'alloc')
                i = self.fresh(I, 'it')
                s.pc = s.pc + (i >= 0, s.alloc >= old_alloc)
                self.havoc(s, acc, st)
                L = LoopCtx(self, st, s, fr, i, src, spec)
                for nm, f in spec.inv(L): self.assume(s, f)
                w = {}
                s.writes = w
                base_pc = s.pc
                for s1, v in head(s, i):
                    if isinstance(v, (Exc, str)): continue
                    for s2, fl in step(s1.clone(), v): pass
                new = False
                for k, refs in w.items():
                    if isinstance(k, tuple) and k[0] == 'loc' and k[1] > sid0: continue      # a local of a call made by the iteration
                    lst = acc.setdefault(k, [])
                    have = set('new' if isinstance(o, str) else None if o is None else o.get_id() for o in lst if not isinstance(o, tuple))
                    before = len(lst)
                    for r in refs:
                        if isinstance(k, tuple): c = None
                        elif r is None: c = None
                        elif self.stable(r, mark): c = r
                        elif self.is_new(r, s, old_alloc, base_pc): c = 'new'
                        else: c = None
                        kk = c if c is None or isinstance(c, str) else c.get_id()
                        if kk not in have:
                            have.add(kk); lst.append(c)
                    if len(lst) != before: new = True
                if not new: break
            else:
                raise Unsupported('loop write set does not stabilise')
        finally:
            self.dry -= 1
        if st.writes is not None:
            for k, refs in acc.items():
                # 'new' objects of an inner loop: newer than anything the outer loop saw at its entry
                st.writes.setdefault(k, []).extend(z3.simplify(-st.alloc - 1) if r is not None and not z3.is_expr(r) else r for r in refs)
        return acc
    def is_new(self, r, s, old_alloc, pc):
        return self.check(pc, z3.Not(r < -old_alloc)) == z3.unsat
    def unroll_loop(self, st, head, step, fr, node):
        """no invariant known: explore a bounded number of iterations, labelled bounded"""
        K = self.unroll
        self.notes.append('bounded loop (%d iterations) in %s line %s' % (K, self.current, getattr(node, 'lineno', '?')))
        def go(i, s):
            for s1, v in head(s, z3.IntVal(i)):
                if isinstance(v, Exc): yield s1, self.excflow(v); continue
                if isinstance(v, str) and v == '$stop':
                    s1 = s1.clone(); s1.bounded = True; yield s1, None; continue
                if i == K: continue           # beyond the bound: not explored
                for s2, fl in step(s1, v):
                    s2.bounded = True
                    if fl is None:
                        for r in go(i + 1, s2): yield r
                    else: yield s2, fl
        return go(0, st)

class LoopCtx(object):
    """what an invariant may talk about"""
    def __init__(self, E, st0, st, fr, i, src, spec, prev=None):
        self.E, self.st0, self.st, self.fr, self.i, self.src, self.spec, self.prev = E, st0, st, fr, i, src, spec, prev
        self.c = E.ghost
    def var(self, name):
        nm = self.spec.rolemap.get(name, name)
        for sid in self.fr.scopes:
            if (sid, nm) in self.st.loc: return self.E.to_v(self.st.loc[(sid, nm)])
        raise SpecMismatch(name)
    def raw(self, name):
        nm = self.spec.rolemap.get(name, name)
        for sid in self.fr.scopes:
            if (sid, nm) in self.st.loc: return self.st.loc[(sid, nm)]
        raise SpecMismatch(name)
    @property
    def out(self):
        """reference of the list that collects what the generator under contract yields"""
        if not self.E.collecting: raise SpecMismatch('not collecting')
        return self.E.collecting[0]
    def var0(self, name):
        nm = self.spec.rolemap.get(name, name)
        for sid in self.fr.scopes:
            if (sid, nm) in self.st0.loc: return self.E.to_v(self.st0.loc[(sid, nm)])
        raise SpecMismatch(name)

class LoopSpec(object):
    def __init__(self, name, inv, match=None, variant=None, lemmas=None, func=None, kind=None, roles=()):
        self.name, self.inv, self.match, self.variant, self.lemmas = name, inv, match, variant, lemmas
        self.func, self.kind, self.ghosts = func, kind, ()
        self.roles = roles
        self.rolemap = {}
        self.used = 0
    def matches(self, E, st, fr, node, src):
        if self.kind and node is not None and node._ != self.kind: return False
        if self.match and not self.match(E, st, fr, node, src): return False
        # the names it needs must exist
        L = LoopCtx(E, st, st, fr, z3.IntVal(0), src, self)
        self.inv(L)
        self.used += 1
        return True
