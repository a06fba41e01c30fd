"""pyvc: attribute access, calls, built-in functions and methods."""
import z3
from front import N, Lit, walk, walk_own
from core import *
from interp import Interp, Frame, LoopCtx, LoopSpec, assigned, is_generator

TYPES = {'list', 'dict', 'set', 'tuple', 'str', 'unicode', 'int', 'long', 'bool', 'float', 'object', 'basestring', 'NoneType', 'type', 'frozenset', 'slice'}
STRM = {'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'join', 'split', 'rsplit', 'isdigit', 'find', 'index',
        'encode', 'decode', 'lstrip', 'rstrip', 'title', 'count', 'format', 'splitlines', 'partition', 'isalpha', 'isspace', 'zfill'}
LISTM = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'sort', 'reverse', 'popleft', 'appendleft', 'clear',
         '__getitem__', '__setitem__', '__delitem__', '__len__', '__iter__', '__contains__', '__init__', '__iadd__'}
DICTM = {'get', 'pop', 'popitem', 'items', 'iteritems', 'keys', 'iterkeys', 'values', 'itervalues', 'update', 'setdefault',
         'clear', 'copy', 'has_key', '__getitem__', '__setitem__', '__delitem__', '__len__', '__iter__', '__contains__',
         '__init__', '__eq__', '__ne__'}
SETM = {'add', 'discard', 'remove', 'union', 'update', 'copy', 'intersection', 'difference', 'issubset', 'issuperset', 'pop', 'clear'}
SIX = {'six.text_type': 'unicode', 'six.binary_type': 'str'}

class BArgs(dict):
    """bound arguments by name or by position (positions survive a renamed parameter)"""
    def __init__(self, b, names): dict.__init__(self, b); self.names = names
    def __missing__(self, k):
        if isinstance(k, int) and k < len(self.names): return self[self.names[k]]
        raise KeyError(k)

class Lib(Interp):
    # ------------------------------------------------------------ attributes
    ddict = None
    def getattr(self, st, o, name, fr, default=None, static_only=False):
        o = self.from_v(o)
        if isinstance(o, Mod): return self.mod_attr(st, o, name)
        if isinstance(o, Cls): return self.cls_attr(st, o, name, fr)
        if isinstance(o, (str, Tup, KwDict, DictIter, Regex, Gen)) and name != '__class__': return iter([(st, Meth(o, name))])
        if isinstance(o, SuperV): return self.super_attr(st, o, name, fr)
        if isinstance(o, Func):
            if name in ('__name__', 'func_name'): return iter([(st, o.name)])
            return iter([(st, Exc('AttributeError'))])
        if isinstance(o, ExcVal): return iter([(st, Tup(o.exc.args) if name == 'args' else self.symbol('excattr'))])
        if isinstance(o, BI):
            if o.name == 'property.fget': pass
            return iter([(st, BI(o.name + '.' + name))])
        if name == '__class__' and isinstance(o, (str, int)): return self.bi_type(st, [o], {}, fr)
        if isinstance(o, z3.ExprRef):
            if name == '__class__' and self.classof(st, o) is None:
                if self.ctor(o) in ('str', 'int', 'bool', 'none'): return self.bi_type(st, [o], {}, fr)
                if self.ctor(o) is None and not self.implied(st, V.is_obj(o)): return self.class_split(st, o, fr)
            return self.v_attr(st, o, name, fr)
        if isinstance(o, (Bound, Meth)) and name == '__name__': return iter([(st, 'name')])
        return iter([(st, Exc('AttributeError'))])
    def mod_attr(self, st, o, name):
        if o.name in self.P.globals:
            yield st, self.lookup_global(st, o.name, name); return
        q = o.name + '.' + name
        if q in SIX: yield st, Cls('__builtin__:' + SIX[q]); return
        if q == 'six.string_types': yield st, Tup([Cls('__builtin__:basestring')]); return
        if q == 'six.integer_types': yield st, Tup([Cls('__builtin__:int'), Cls('__builtin__:long')]); return
        if q == 'six.class_types': yield st, Tup([Cls('__builtin__:type')]); return
        if q in ('decimal.Decimal', 'collections.deque', 'datetime.date', 'datetime.time', 'datetime.datetime', 'datetime.timedelta'):
            yield st, Cls(q.replace('.', ':')); return
        if q in ('xml.sax', 'xml.sax.saxutils', 'xml.sax'): yield st, Mod(q); return
        yield st, BI(q)
    def cls_attr(self, st, o, name, fr):
        q = o.q
        h = self.iface.get('cls.' + name)
        if h is not None:
            r = h(self, st, o)
            if r is not None:
                for x in r: yield x
                return
        if name == '__name__': yield st, q.split(':')[1]; return
        b, d = self.P.class_attr(q, name)
        if d is None:
            if q.startswith(('__builtin__:', 'collections:', 'datetime:', 'decimal:')) or any(
                    x in ('__builtin__:list', '__builtin__:dict', '__builtin__:set') for x in self.P.mro(q)):
                base = next((x for x in self.P.mro(q) if x in ('__builtin__:list', '__builtin__:dict', '__builtin__:set')), q)
                yield st, BI(base.split(':')[1] + '.' + name); return
            yield st, Exc('AttributeError'); return
        for r in self.from_classdesc(st, d, None, o, name, fr): yield r
    def funcof(self, d, b=None):
        node = self.P.func_at(d['mod'], d['line'], d['name'])
        if node is None: return None
        return Func(node, d['mod'], self.P.qual.get(id(node)), cls=b)
    def from_classdesc(self, st, d, selfv, clsv, name, fr):
        k = d['k']
        if k in ('func', 'method'):
            f = self.funcof(d)
            if f is None: yield st, BI(d['mod'] + '.' + d['name']); return
            yield st, (Bound(selfv, f) if selfv is not None else f); return
        if k in ('classmethod', 'class_cloner'):
            f = self.funcof(d['f'])
            if f is None: raise Unsupported('classmethod ' + name)
            f = Func(f.node, f.mod, f.qual, f.scopes, kind=k)
            yield st, Bound(clsv if clsv is not None else self.iface['typeof'](self, st, selfv), f); return
        if k == 'staticmethod':
            if d['f'].get('k') == 'func': yield st, self.funcof(d['f']); return
            yield st, self.from_desc(st, d['f']); return
        if k == 'property':
            if selfv is None: yield st, BI('property:' + name); return
            f = self.funcof(d['fget'])
            for r in self.call(st, f, [selfv], {}, fr): yield r
            return
        if k in ('assignable_property', 'assignable_class_property', 'lazy_property'):
            h = self.iface.get(k)
            if h:
                for r in h(self, st, selfv, clsv, name, d, fr): yield r
                return
            if selfv is not None and k == 'assignable_property':
                v = self.getf(st, self.ref(selfv), name)
                for s, b in self.split(st, v == ABSENT):
                    if not b: yield s, v
                    else:
                        for r in self.call(s, self.funcof(d['f']), [selfv], {}, fr): yield r
                return
            raise Unsupported('descriptor %s %s' % (k, name))
        yield st, self.from_desc(st, d, ('g', 'class', name))
    def v_attr(self, st, o, name, fr):
        q = self.classof(st, o)
        if q is None:
            c = self.ctor(o)
            if c == 'str' or (c is None and name in STRM and self.implied(st, V.is_str(o))):
                yield st, Meth(o, name); return
            if c in ('none', 'bool', 'int', 'nil', 'absent'):
                yield st, Exc('AttributeError'); return
            if c == 'cons': yield st, Meth(o, name); return
            if c is None and not self.implied(st, V.is_obj(o)):
                for s, b in self.split(st, V.is_obj(o)):
                    if b:
                        for r in self.abs_attr(s, o, name, fr): yield r
                    elif 'scalarattr' in self.iface:
                        for r in self.iface['scalarattr'](self, s, o, name): yield r
                    else:
                        for s2, b2 in self.split(s, V.is_str(o)):
                            if b2 and name in STRM: yield s2, Meth(o, name)
                            else: yield s2, Exc('AttributeError')
                return
            for r in self.abs_attr(st, o, name, fr): yield r
            return
        for r in self.obj_attr(st, o, q, name, fr): yield r
    def abs_attr(self, st, o, name, fr):
        h = self.iface.get(name)
        if h is not None:
            for r in h(self, st, o): yield r
            return
        if name in self.icall:
            yield st, Meth(o, '@' + name); return
        h = self.iface.get('*')
        if h is not None:
            for r in h(self, st, o, name): yield r
            return
        raise Unsupported('attribute %s of an object of unknown class' % name)
    def obj_attr(self, st, o, q, name, fr):
        h = self.iface.get(q + '.' + name)
        if h is not None:
            for r in h(self, st, o): yield r
            return
        if name == '__class__': yield st, Cls(q); return
        if name == '__dict__': raise Unsupported('__dict__')
        b, d = self.P.class_attr(q, name)
        if d is not None and d['k'] in ('func', 'method', 'property', 'classmethod', 'class_cloner', 'staticmethod',
                                        'assignable_property', 'assignable_class_property', 'lazy_property'):
            if d['k'] in ('func', 'method', 'staticmethod'):
                v = z3.simplify(z3.Select(self.comp(st, 'f.' + name), self.ref(o))) if ('f.' + name) in st.heap else None
                if v is not None and self.ctor(v) not in (None, 'absent'): yield st, v; return
            for r in self.from_classdesc(st, d, o, Cls(q), name, fr): yield r
            return
        m = self.P.mro(q)
        if d is None:
            for base, ms in (('list', LISTM), ('collections:deque', LISTM), ('dict', DICTM), ('set', SETM)):
                bq = base if ':' in base else '__builtin__:' + base
                if bq in m and name in ms: yield st, Meth(o, name); return
            if q in ('__builtin__:tuple',): yield st, Exc('AttributeError'); return
        if self.isdictlike(q) and name not in self.known_fields(q): yield st, Exc('AttributeError'); return
        v = self.getf(st, self.ref(o), name)
        ft = self.fieldtypes.get((q, name)) or self.fieldtypes.get(name)
        if self.ctor(v) == 'absent':
            if d is not None: yield st, self.from_desc(st, d, ('g', 'class', name)); return
            yield st, Exc('AttributeError'); return
        if d is None and name not in self.known_fields(q) and ft is None:
            for s, b2 in self.split(st, v == ABSENT): yield s, (Exc('AttributeError') if b2 else v)
            return
        st.pc = st.pc + (v != ABSENT,)
        if ft is not None and self.classof(st, v) is None:
            self.assumed.add('attribute %s always holds a %s' % (name, ft.split(':')[1]))
            st = st.clone(); st.pc = st.pc + (V.is_obj(v),)
            self.setclass(st, v, ft)
        yield st, v
    def isdictlike(self, q): return q in ('__builtin__:dict', '__builtin__:set', '__builtin__:list')
    def known_fields(self, q):
        r = self.class_fields.get(q)
        if r is None:
            r = set()
            for b in self.P.mro(q):
                c = self.P.classes.get(b)
                if not c: continue
                for k, d in c['attrs'].items():
                    fd = d if d.get('k') in ('func', 'method') else d.get('f') if d.get('k') in ('property', 'class_cloner', 'classmethod') else None
                    if d.get('k') == 'property':
                        fds = [x for x in (d.get('fget'), d.get('fset')) if x]
                    else: fds = [fd] if fd and fd.get('k') in ('func', 'method') else []
                    for f in fds:
                        node = self.P.func_at(f['mod'], f['line'], f['name'])
                        if node is None or not node.args.args: continue
                        sn = getattr(node.args.args[0], 'id', None)
                        for x in walk(node.body):
                            if x._ == 'Attribute' and x.ctx._ == 'Store' and x.value._ == 'Name' and x.value.id == sn:
                                r.add(x.attr)
            self.class_fields[q] = r
        return r
    fieldtypes = {}
    def super_attr(self, st, o, name, fr):
        selfv = o.self
        sv = self.from_v(selfv)
        q = sv.q if isinstance(sv, Cls) else self.classof(st, selfv)
        if q is None: raise Unsupported('super() of unknown class')
        b, d = self.P.class_attr(q, name, after=o.cls.q)
        if d is None:
            if name == '__init__' : yield st, BI('noop'); return
            base = next((x for x in self.P.mro(q) if x in ('__builtin__:list', '__builtin__:dict', '__builtin__:set')), None)
            if base: yield st, Meth(selfv, 'raw:' + base.split(':')[1] + '.' + name); return
            if name == '__setattr__': yield st, Meth(selfv, 'raw:object.__setattr__'); return
            raise Unsupported('super().%s' % name)
        if isinstance(sv, Cls):
            for r in self.from_classdesc(st, d, None, sv, name, fr): yield r
        else:
            for r in self.from_classdesc(st, d, selfv, Cls(q), name, fr): yield r
    def setattr(self, st, o, name, v, fr):
        o = self.from_v(o)
        if isinstance(o, Cls):
            h = self.iface.get('cls=' + name) or self.iface.get('cls=*')
            if h:
                for r in h(self, st, o, name, v): yield r
                return
            raise Unsupported('assignment to class attribute %s' % name)
        if not isinstance(o, z3.ExprRef):
            yield st, Exc('AttributeError'); return
        q = self.classof(st, o)
        if q is None:
            if not self.implied(st, V.is_obj(o)):
                for s, b in self.split(st, V.is_obj(o)):
                    if not b: yield s, Exc('AttributeError')
                    else:
                        for r in self.set_abs(s, o, name, v): yield r
                return
            for r in self.set_abs(st, o, name, v): yield r
            return
        h = self.iface.get(q + '.' + name + '=')
        if h is not None:
            for r in h(self, st, o, v): yield r
            return
        b, d = self.P.class_attr(q, name)
        if d is not None and d['k'] == 'property':
            if 'fset' not in d: yield st, Exc('AttributeError'); return
            for s, r in self.call(st, self.funcof(d['fset']), [o, v], {}, fr):
                yield s, (r if isinstance(r, Exc) else None)
            return
        s = st.clone()
        self.setf(s, self.ref(o), name, v)
        yield s, None
    def set_abs(self, st, o, name, v):
        h = self.iface.get(name + '=') or self.iface.get('*=')
        if h is not None:
            for r in h(self, st, o, v, *(() if (name + '=') in self.iface else (name,))): yield r
            return
        s = st.clone(); self.setf(s, self.ref(o), name, v); yield s, None
    # ------------------------------------------------------------ items
    def norm_index(self, st, ix, n):
        """python index -> (in range condition, absolute index)"""
        j = z3.simplify(z3.If(ix < 0, ix + n, ix))
        return z3.And(0 <= j, j < n), j
    def list_bounds(self, st, sl, n):
        """as slice_bounds, with names for bounds that are case distinctions"""
        lo, hi = self.slice_bounds(st, sl, n); out = []
        for t in (lo, hi):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: k = self.fresh(I, 'bound'); st.pc = st.pc + (k == t,); t = k
            out.append(t)
        if not (out[0] is lo and out[1] is hi): st.pc = st.pc + (0 <= out[0], out[0] <= out[1], out[1] <= n)
        return out
    def slice_bounds(self, st, sl, n):
        """start, stop of a step-1 slice with Python clipping; yields (st, lo, hi)"""
        step = self.from_v(sl.step)
        if not (step is None or step == 1 or (isinstance(step, z3.ExprRef) and (self.implied(st, step == NONE)))):
            raise Unsupported('slice with a step')
        def one(x, dflt):
            x = self.from_v(x)
            if x is None: return dflt
            if isinstance(x, int): t = z3.IntVal(x)
            elif isinstance(x, z3.ExprRef):
                if self.ctor(x) == 'int': t = x.arg(0)
                else:
                    return z3.If(x == NONE, dflt, one(V.int(V.i(x)), dflt))
            else: raise Unsupported('slice bound')
            t = z3.If(t < 0, t + n, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
        def decide(t):
            """drop the clipping where the path condition settles it"""
            t = z3.simplify(t)
            while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                cnd = t.arg(0)
                if self.implied(st, cnd): t = z3.simplify(t.arg(1))
                elif self.implied(st, z3.Not(cnd)): t = z3.simplify(t.arg(2))
                else: break
            return t
        lo = decide(one(sl.lo, z3.IntVal(0))); hi = decide(one(sl.hi, n))
        return lo, decide(z3.If(hi < lo, lo, hi))
    def stepped(self, st, sl, n):
        """cases of a slice with an unknown step: (st, None) step 1, (st, Exc), or (st, (count, position of the k-th, which one a position is))
        for any other step; which positions those are is left to Python (distinct positions of the list)"""
        step = self.from_v(sl.step)
        if not isinstance(step, z3.ExprRef) or self.implied(st, step == NONE): yield st, None; return
        for s, none in self.split(st, step == NONE):
            if none: yield s, None
            else: st = s
        if self.implied(st, step == NONE): return
        for s, x in self.need_int(st, step):
            if isinstance(x, Exc): yield s, x; continue
            for s1, one in self.split(s, x == 1):
                if one: yield s1, None; continue
                for s2, z in self.split(s1, x == 0):
                    if z: yield s2, Exc('ValueError'); continue
                    s2 = s2.clone(); m, at, of = self.slice_positions(sl, n); k = z3.Int('k!st')
                    s2.pc = s2.pc + (0 <= m, m <= n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= at(k), at(k) < n, of(at(k)) == k)), patterns=[at(k)]))
                    self.assumed.add('an extended slice denotes distinct positions of the list (which ones: Python slice rules)')
                    yield s2, (m, at, of)
    def slice_positions(self, sl, n):
        a = (n, self.to_v(sl.lo), self.to_v(sl.hi), self.to_v(sl.step)); so = (I, V, V, V); at, of = self.uf('slice_at', *(so + (I, I))), self.uf('slice_index', *(so + (I, I)))
        return self.uf('slice_count', *(so + (I,)))(*a), (lambda k: at(*(a + (k,)))), (lambda k: of(*(a + (k,))))
    def slice_keeps(self, sl, n):
        a = (n, self.to_v(sl.lo), self.to_v(sl.hi), self.to_v(sl.step)); f = self.uf('slice_keeps', I, V, V, V, I, I); return lambda k: f(*(a + (k,)))
    def getitem(self, st, o, i, fr, direct=False):
        o, i = self.from_v(o), self.from_v(i)
        if isinstance(o, Tup):
            if isinstance(i, int):
                yield st, (o.items[i] if -len(o.items) <= i < len(o.items) else Exc('IndexError')); return
            if isinstance(i, SliceV) and all(isinstance(x, (int, type(None))) for x in (i.lo, i.hi, i.step)):
                yield st, Tup(o.items[slice(i.lo, i.hi, i.step)]); return
            for k in range(len(o.items)):
                for s, b in self.split(st, self.eq(st, i, k)):
                    if b: yield s, o.items[k]
                    else: st = s
            yield st, Exc('IndexError'); return
        if isinstance(o, KwDict):
            if isinstance(i, str): yield st, (o.d[i] if i in o.d else Exc('KeyError')); return
        if isinstance(o, str) and isinstance(i, (int, SliceV)):
            if isinstance(i, int): yield st, (o[i] if -len(o) <= i < len(o) else Exc('IndexError')); return
            if all(isinstance(x, (int, type(None))) for x in (i.lo, i.hi, i.step)): yield st, o[slice(i.lo, i.hi, i.step)]; return
        if isinstance(o, str): o = sv(o)
        if isinstance(o, SeqVal):
            for s, x in self.need_int(st, i):
                if isinstance(x, Exc): yield s, x; continue
                ok, j = self.norm_index(s, x, o.n)
                for s2, b in self.split(s, ok): yield s2, (z3.simplify(z3.Select(o.arr, j)) if b else Exc('IndexError'))
            return
        if not isinstance(o, z3.ExprRef): raise Unsupported('subscript of %r' % (o,))
        q = self.classof(st, o)
        if q is None:
            if self.isstr(st, o):
                for r in self.str_getitem(st, o, i): yield r
                return
            if self.ctor(o) in ('none', 'int', 'bool'): yield st, Exc('TypeError'); return
            if 'getitem' in self.iface:
                for r in self.iface['getitem'](self, st, o, i): yield r
                return
            if self.ctor(o) == 'cons' and isinstance(i, int) and i >= 0:
                x = o
                for _ in range(i): x = V.tl(x)
                x = z3.simplify(x)
                for s, b in self.split(st, V.is_cons(x)): yield s, (z3.simplify(V.hd(x)) if b else Exc('IndexError'))
                return
            raise Unsupported('subscript of an unknown value')
        if isinstance(i, SliceV):
            b, d = self.P.class_attr(q, '__getslice__')
            if d is not None and direct and i.step is None:
                n_ = BI('maxint')
                for r in self.call_attr(st, o, '__getslice__', [0 if i.lo is None else i.lo, self.named('maxint', 2**31-1) if i.hi is None else i.hi], {}, fr): yield r
                return
        b, d = self.P.class_attr(q, '__getitem__')
        if d is not None:
            for r in self.call_attr(st, o, '__getitem__', [i], {}, fr): yield r
            return
        for r in self.raw_getitem(st, o, q, i): yield r
    def str_getitem(self, st, o, i):
        sx = self.strof(o); n = z3.Length(sx)
        if isinstance(i, SliceV):
            lo, hi = self.slice_bounds(st, i, n)
            yield st, V.str(z3.simplify(z3.SubString(sx, lo, hi - lo))); return
        for s, x in self.need_int(st, i):
            if isinstance(x, Exc): yield s, x; continue
            ok, j = self.norm_index(s, x, n)
            for s2, b in self.split(s, ok): yield s2, (V.str(z3.SubString(sx, j, 1)) if b else Exc('IndexError'))
    def raw_getitem(self, st, o, q, i):
        ref = self.ref(o); m = self.P.mro(q)
        if self.islist(q):
            n, arr = self.llen(st, ref), self.larr(st, ref)
            if isinstance(i, SliceV):
                for s, ext in self.stepped(st, i, n):
                    if isinstance(ext, Exc): yield s, ext; continue
                    s = s.clone(); j = z3.Int('j!s')
                    if ext: yield s, self.newlist_sym(s, ext[0], z3.Lambda([j], z3.Select(arr, ext[1](j)))); continue
                    lo, hi = self.list_bounds(s, SliceV(i.lo, i.hi, None), n)
                    ln = z3.simplify(hi - lo)
                    yield s, self.newlist_sym(s, ln, z3.Lambda([j], z3.Select(arr, j + lo)))
                return
            if isinstance(i, z3.ExprRef) and self.ctor(i) is None and 'list.item' in self.ext:
                for r in self.ext['list.item'](self, st, n, arr, i): yield r
                return
            for s, x in self.need_int(st, i):
                if isinstance(x, Exc): yield s, x; continue
                ok, j = self.norm_index(s, x, n)
                for s2, b in self.split(s, ok):
                    yield s2, (self.lget(s2, ref, j) if b else Exc('IndexError'))
            return
        if '__builtin__:dict' in m:
            k = self.to_v(i)
            for s, b in self.split(st, self.dhas(st, ref, k)):
                if not b and str(ref) in self.ddict:        # collections.defaultdict
                    for s2, v in self.call(s, self.ddict[str(ref)], [], {}, None):
                        if isinstance(v, Exc): yield s2, v; continue
                        s2 = s2.clone(); self.dput(s2, ref, k, self.to_v(v)); self.last_default_key = k
                        if self.on_default: self.on_default(s2, self.to_v(v))
                        yield s2, v
                    continue
                yield s, (self.dget(s, ref, k) if b else Exc('KeyError'))
            return
        raise Unsupported('subscript of ' + q)
    on_default = None
    def bi_collections_defaultdict(self, st, args, kw, fr):
        if len(args) != 1 or kw: raise Unsupported('defaultdict arguments')
        s = st.clone(); v = self.newdict(s); self.setclass(s, v, '__builtin__:dict'); self.ddict[str(self.ref(v))] = args[0]; yield s, v
    def setitem(self, st, o, i, v, fr):
        o, i = self.from_v(o), self.from_v(i)
        if isinstance(o, KwDict):
            if not isinstance(i, str): raise Unsupported('kwargs[?] = ')
            raise Unsupported('kwargs assignment')
        if not isinstance(o, z3.ExprRef): raise Unsupported('item assignment to %r' % (o,))
        q = self.classof(st, o)
        if q is None:
            if 'setitem' in self.iface:
                for r in self.iface['setitem'](self, st, o, i, v): yield r
                return
            raise Unsupported('item assignment to an unknown value')
        b, d = self.P.class_attr(q, '__setitem__')
        if d is not None:
            for s, r in self.call_attr(st, o, '__setitem__', [i, v], {}, fr):
                yield s, (r if isinstance(r, Exc) else None)
            return
        for r in self.raw_setitem(st, o, q, i, v): yield r
    def raw_setitem(self, st, o, q, i, v):
        ref = self.ref(o); m = self.P.mro(q)
        if '__builtin__:dict' in m:
            s = st.clone(); self.dput(s, ref, self.to_v(i), v); yield s, None; return
        if self.islist(q):
            n, arr = self.llen(st, ref), self.larr(st, ref)
            if isinstance(i, SliceV):
                sq = self.as_seq(v, st)
                if isinstance(self.from_v(v), Tup):
                    it = self.from_v(v).items; a = z3.K(I, ABSENT)
                    for k, x in enumerate(it): a = z3.Store(a, z3.IntVal(k), self.to_v(x))
                    sq = (z3.IntVal(len(it)), a)
                if sq is None: raise Unsupported('slice assignment of ?')
                for s, ext in self.stepped(st, i, n):
                    if isinstance(ext, Exc): yield s, ext; continue
                    j = z3.Int('j!s'); m2, a2 = sq
                    if ext:
                        m, at, of = ext
                        for s2, fits in self.split(s, m == m2):
                            if not fits: yield s2, Exc('ValueError'); continue
                            s2 = s2.clone(); self.lset(s2, ref, n, z3.Lambda([j], z3.If(z3.And(0 <= of(j), of(j) < m, at(of(j)) == j), z3.Select(a2, of(j)), z3.Select(arr, j)))); yield s2, None
                        continue
                    lo, hi = self.list_bounds(s, SliceV(i.lo, i.hi, None), n); s = s.clone()
                    self.lset(s, ref, z3.simplify(n - (hi - lo) + m2),
                              z3.Lambda([j], z3.If(j < lo, z3.Select(arr, j), z3.If(j < lo + m2, z3.Select(a2, j - lo), z3.Select(arr, j - m2 + hi - lo)))))
                    yield s, None
                return
            for s, x in self.need_int(st, i):
                if isinstance(x, Exc): yield s, x; continue
                ok, j = self.norm_index(s, x, n)
                for s2, b in self.split(s, ok):
                    if not b: yield s2, Exc('IndexError'); continue
                    s2 = s2.clone(); self.lset(s2, ref, n, z3.Store(arr, j, self.to_v(v))); yield s2, None
            return
        raise Unsupported('item assignment on ' + q)
    def delitem(self, st, o, i, fr):
        o, i = self.from_v(o), self.from_v(i)
        q = self.classof(st, o) if isinstance(o, z3.ExprRef) else None
        if q is None:
            if isinstance(o, z3.ExprRef) and 'delitem' in self.iface:
                for r in self.iface['delitem'](self, st, o, i): yield r
                return
            raise Unsupported('del item of an unknown value')
        b, d = self.P.class_attr(q, '__delitem__')
        if d is not None:
            for s, r in self.call_attr(st, o, '__delitem__', [i], {}, fr):
                yield s, (r if isinstance(r, Exc) else None)
            return
        for r in self.raw_delitem(st, o, q, i): yield r
    def raw_delitem(self, st, o, q, i):
        ref = self.ref(o); m = self.P.mro(q)
        if '__builtin__:dict' in m:
            k = self.to_v(i)
            for s, b in self.split(st, self.dhas(st, ref, k)):
                if b: s = s.clone(); self.ddel(s, ref, k); yield s, None
                else: yield s, Exc('KeyError')
            return
        if self.islist(q):
            n, arr = self.llen(st, ref), self.larr(st, ref); j = z3.Int('j!s')
            if isinstance(i, SliceV):
                for s, ext in self.stepped(st, i, n):
                    if isinstance(ext, Exc): yield s, ext; continue
                    s = s.clone()
                    if ext:
                        m, at, of = ext; keep = self.slice_keeps(i, n); k, k2 = z3.Ints('k!d k2!d')
                        s.pc = s.pc + (z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n - m), z3.And(0 <= keep(k), keep(k) < n, z3.Not(z3.And(0 <= of(keep(k)), of(keep(k)) < m, at(of(keep(k))) == keep(k))))), patterns=[keep(k)]),
                                       z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < n - m), keep(k) < keep(k2)), patterns=[z3.MultiPattern(keep(k), keep(k2))]))
                        self.lset(s, ref, z3.simplify(n - m), z3.Lambda([j], z3.Select(arr, keep(j)))); yield s, None; continue
                    lo, hi = self.list_bounds(s, SliceV(i.lo, i.hi, None), n)
                    self.lset(s, ref, z3.simplify(n - (hi - lo)), z3.Lambda([j], z3.If(j < lo, z3.Select(arr, j), z3.Select(arr, j + hi - lo))))
                    yield s, None
                return
            for s, x in self.need_int(st, i):
                if isinstance(x, Exc): yield s, x; continue
                ok, k = self.norm_index(s, x, n)
                for s2, b in self.split(s, ok):
                    if not b: yield s2, Exc('IndexError'); continue
                    s2 = s2.clone(); self.lset(s2, ref, z3.simplify(n - 1), z3.Lambda([j], z3.If(j < k, z3.Select(arr, j), z3.Select(arr, j + 1))))
                    yield s2, None
            return
        raise Unsupported('del item on ' + q)
    # ------------------------------------------------------------ calls
    def call_attr(self, st, o, name, args, kw, fr):
        for s, f in self.getattr(st, o, name, fr):
            if isinstance(f, Exc): yield s, f
            else:
                for r in self.call(s, f, args, kw, fr): yield r
    def call(self, st, f, args, kw, fr, star=None, starpos=None):
        f = self.from_v(f)
        if isinstance(f, Bound):
            if isinstance(f.f, Func): return self.call(st, f.f, [f.self] + list(args), kw, fr, star, starpos)
            return self.call(st, f.f, [f.self] + list(args), kw, fr, star, starpos)
        if isinstance(f, Func): return self.call_func(st, f, list(args), kw, fr, star, starpos)
        if star is not None or starpos is not None:
            h = self.ext.get('starcall')
            if h: return h(self, st, f, args, kw, star, starpos)
            if isinstance(f, Cls) and f.short == 'dict': pass
            else: raise Unsupported('call with unknown *args/**kw')
        if isinstance(f, Meth): return self.call_meth(st, f, list(args), kw, fr)
        if isinstance(f, Cls): return self.call_cls(st, f, list(args), kw, fr)
        if isinstance(f, BI): return self.call_bi(st, f.name, list(args), kw, fr)
        if isinstance(f, z3.ExprRef):
            q = self.classof(st, f)
            if q and self.P.class_attr(q, '__call__')[1]: return self.call_attr(st, f, '__call__', args, kw, fr)
            if self.extcall is not None: return self.extcall(self, st, f, list(args), kw)
        if isinstance(f, (Symb, NamedInt, str, int, type(None), Tup, FloatC)): return iter([(st, Exc('TypeError'))])
        raise Unsupported('call of %r' % (f,))
    MAXDEPTH = 40
    depth = 0
    def call_func(self, st, f, args, kw, fr, star=None, starpos=None):
        c = self.contracts.get(f.qual) if f.qual else None
        if c is not None and f.qual != self.verifying:
            bound = self.bind(st, f, args, kw, fr, star, starpos)
            for s, b in bound:
                if isinstance(b, Exc): yield s, b; continue
                for r in c(self, s, BArgs(b, self.argnames(f.node)), f): yield r
            return
        if f.qual and f.qual not in (None, self.verifying): self.inlined.add(f.qual)
        if self.depth > self.MAXDEPTH: raise Unsupported('recursion too deep at %s' % f.name)
        for s, b in self.bind(st, f, args, kw, fr, star, starpos):
            if isinstance(b, Exc): yield s, b; continue
            sid = self.newsid()
            body = f.node.body if f.node._ == 'FunctionDef' else [f.node]
            locs, glob = (assigned(f.node.body) if f.node._ == 'FunctionDef' else (set(), set()))
            names = set(b)
            if is_generator(f.node):
                def run(E, st2, on_yield, f=f, b=b, locs=locs, glob=glob, names=names):
                    sid = E.newsid()
                    st2 = st2.clone()
                    f2 = Frame(f, sid, (sid,) + f.scopes, f.mod, f.cls, on_yield, locs | names)
                    f2.globals = glob
                    for k, v in b.items(): st2.loc[(sid, k)] = v
                    E.depth += 1
                    try:
                        for s3, fl in E.block(f.node.body, st2, f2):
                            E.depth -= 1
                            yield s3, fl
                            E.depth += 1
                    finally: E.depth -= 1
                g = Gen(run); g.func = f
                yield s, g; continue
            s = s.clone()
            f2 = Frame(f, sid, (sid,) + f.scopes, f.mod, f.cls, None, locs | names)
            f2.globals = glob
            for k, v in b.items(): s.loc[(sid, k)] = v
            if f.node._ == 'Lambda':
                for r in self.ev(f.node.body, s, f2): yield r
                continue
            self.depth += 1
            try:
                for s3, fl in self.block(f.node.body, s, f2):
                    self.depth -= 1
                    if fl is None: yield s3, None
                    elif fl[0] == 'ret': yield s3, fl[1]
                    elif fl[0] == 'exc': yield s3, fl[1]
                    elif fl[0] == 'outer': yield s3, Exc('$flow', (), fl[1])
                    else: raise Unsupported('flow %r out of function' % (fl,))
                    self.depth += 1
            finally: self.depth -= 1
    verifying = None
    def argnames(self, node):
        a = node.args
        out = []
        for x in a.args:
            if x._ != 'Name': raise Unsupported('tuple parameter')
            out.append(x.id)
        return out
    def bind(self, st, f, args, kw, fr, star=None, starpos=None):
        """bind arguments to parameters: yields (st, {name: value} | Exc)"""
        a = f.node.args
        names = self.argnames(f.node)
        b = {}
        kw = dict(kw)
        va = getattr(a, 'vararg', None); ka = getattr(a, 'kwarg', None)
        if starpos is not None:
            if va is None or len(args) != len(names): raise Unsupported('*args into named parameters')
            for n, v in zip(names, args): b[n] = v
            b[va] = starpos
        else:
            for n, v in zip(names, args): b[n] = v
            rest = args[len(names):]
            if rest and va is None: yield st, Exc('TypeError'); return
            if va is not None: b[va] = Tup(rest)
        for k in list(kw):
            if k in names:
                if k in b: yield st, Exc('TypeError'); return
                b[k] = kw.pop(k)
        if star is not None:
            if ka is None: raise Unsupported('**kw into named parameters')
            if kw: raise Unsupported('**kw plus keywords')
            missing = [n for n in names if n not in b]
            b[ka] = star
        elif kw and ka is None: yield st, Exc('TypeError'); return
        elif ka is not None:
            st = st.clone()
            b[ka] = self.newdict(st, [(k, v) for k, v in kw.items()])
            self.setclass(st, b[ka], '__builtin__:dict')
        defs = a.defaults or []
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n in b: continue
            f2 = Frame(f, 0, f.scopes, f.mod, f.cls)
            vals = list(self.ev(d, st, f2))
            if len(vals) != 1 or isinstance(vals[0][1], Exc): raise Unsupported('default value')
            st = vals[0][0]; b[n] = vals[0][1]
        for n in names:
            if n not in b: yield st, Exc('TypeError'); return
        yield st, b
    # ------------------------------------------------------------ classes
    def call_cls(self, st, c, args, kw, fr):
        n, q = c.short, c.q
        h = self.ext.get('new:' + q)
        if h is not None: return h(self, st, args, kw)
        if q.startswith('exceptions:') or q.startswith('flatland.exc:') or n in EXC_BASE:
            return iter([(st, ExcVal(Exc(n, args)))])
        if n in TYPES and q.startswith('__builtin__:') or q == 'collections:deque':
            return self.call_bi(st, n, args, kw, fr)
        if q in self.P.classes and (q.startswith('flatland')): return self.instantiate(st, c, args, kw, fr)
        return self.call_bi(st, q.replace(':', '.'), args, kw, fr)
    def instantiate(self, st, c, args, kw, fr):
        s = st.clone()
        v = self.alloc(s, c.q)
        ref = self.ref(v)
        m = self.P.mro(c.q)
        if '__builtin__:list' in m: self.lset(s, ref, z3.IntVal(0), z3.K(I, ABSENT))
        if '__builtin__:dict' in m: self.dset(s, ref, self.EMPTYDOM, self.EMPTYMAP)
        s.heap['$new'] = None
        s.heap.pop('$new')
        # every attribute of the new object starts unset
        self.newobjs = getattr(self, 'newobjs', {})
        for nm in sorted(set(self.known_fields(c.q)) | set(k for b in m if b in self.P.classes for k, d in self.P.classes[b]['attrs'].items()
                         if d.get('k') in ('const', 'str', 'int', 'tuple', 'symbol', 'namedint', 'bytes', 'class', 'inst', 'list', 'dict'))):
            s.heap['f.' + nm] = z3.Store(self.comp(s, 'f.' + nm), ref, ABSENT)
            if s.writes is not None: s.writes.setdefault('f.' + nm, []).append(ref)
        b, d = self.P.class_attr(c.q, '__init__')
        if d is None or d.get('k') not in ('func', 'method'):
            if args or kw: raise Unsupported('constructor of ' + c.q)
            yield s, v; return
        for s2, r in self.call(s, self.funcof(d), [v] + args, kw, fr):
            yield s2, (r if isinstance(r, Exc) else v)
    # ------------------------------------------------------------ isinstance
    def isinstance_(self, st, x, t):
        """z3 Bool / bool for isinstance(x, t)"""
        t = self.from_v(t); x = self.from_v(x)
        if isinstance(t, Tup):
            rs = [self.isinstance_(st, x, y) for y in t.items]
            if any(r is True for r in rs): return True
            rs = [r for r in rs if r is not False]
            return z3.Or(rs) if rs else False
        if not isinstance(t, Cls): raise Unsupported('isinstance of %r' % (t,))
        n, q = t.short, t.q
        if not isinstance(x, z3.ExprRef):
            if x is None: return n in ('NoneType', 'object')
            if isinstance(x, bool): return n in ('bool', 'int', 'object')
            if isinstance(x, int): return n in ('int', 'long', 'object')
            if isinstance(x, str): return n in ('unicode', 'basestring', 'object')
            if isinstance(x, Tup): return n in ('tuple', 'object')
            if isinstance(x, NamedInt): return n in ('int', 'object')
            if isinstance(x, SliceV): return n in ('slice', 'object')
            if isinstance(x, Cls): return n in ('type', 'object')
            if isinstance(x, FloatC): return n in ('float', 'object')
            if isinstance(x, KwDict): return n in ('dict', 'object')
            return n == 'object'
        cq = self.classof(st, x)
        if cq: return n == 'object' or q in self.P.mro(cq) or cq == q
        c = self.ctor(x)
        d = {'none': ('NoneType',), 'bool': ('bool', 'int'), 'int': ('int', 'long'), 'str': ('unicode', 'basestring'),
             'nil': ('tuple',), 'cons': ('tuple',)}
        if c in d: return n in d[c] or n == 'object'
        objtest = self.uf('isinst_' + q, I, B)(V.r(x))
        if n == 'object': return True
        if n == 'NoneType': return x == NONE
        if n == 'bool': return V.is_bool(x)
        if n == 'int': return z3.Or(V.is_bool(x), V.is_int(x), z3.And(V.is_sym(x), self.symnum(V.k(x))))
        if n == 'long': return V.is_int(x)
        if n in ('unicode', 'basestring'): return V.is_str(x)
        if n == 'str' and q.startswith('__builtin__'):
            self.assumed.add('text is unicode: byte strings are not modelled')
            return False
        if n == 'tuple' and q.startswith('__builtin__'): return z3.Or(V.is_cons(x), x == NIL)
        if n == 'slice': return False
        if n == 'type': return z3.And(V.is_sym(x), self.symclass(V.k(x)))
        return z3.And(V.is_obj(x), objtest)
    def symclass(self, k):
        f = [i for i, v in enumerate(self.registry) if isinstance(v, Cls)]
        return z3.Or([k == i for i in f]) if f else z3.BoolVal(False)
    def pyid(self, x): return self.uf('pyid', V, I)(self.to_v(x))
    # ------------------------------------------------------------ builtins
    def call_bi(self, st, n, args, kw, fr):
        h = self.ext.get(n)
        if h is not None: return h(self, st, args, kw)
        m = getattr(self, 'bi_' + n.replace('.', '_').replace(':', '_'), None)
        if m is not None: return m(st, args, kw, fr)
        if n.startswith('__builtin__.') and hasattr(self, 'bi_' + n[12:]): return getattr(self, 'bi_' + n[12:])(st, args, kw, fr)
        if n.startswith('attrgetter:') and len(args) == 1 and '.' not in n: return self.getattr(st, args[0], n[11:], fr)
        if n.startswith('itemgetter:') and len(args) == 1 and n[11:].isdigit(): return self.getitem(st, args[0], int(n[11:]), fr)
        if '.' in n:
            base, meth = n.rsplit('.', 1)
            if base in ('list', 'dict', 'set', 'str', 'unicode', 'object') and args:
                if meth == '__init__' and base == 'object': return iter([(st, None)])
                return self.call_meth(st, Meth(args[0], 'raw:%s.%s' % (base, meth)), args[1:], kw, fr)
        raise Unsupported('builtin %s' % n)
    def one(self, st, v): return iter([(st, v)])
    def bi_noop(self, st, args, kw, fr): return self.one(st, None)
    def bi_len(self, st, args, kw, fr):
        x = self.from_v(args[0])
        if isinstance(x, (str,)): yield st, len(x); return
        if isinstance(x, Tup): yield st, len(x.items); return
        if isinstance(x, KwDict): yield st, len(x.d); return
        if isinstance(x, SeqVal): yield st, iv(x.n); return
        if isinstance(x, z3.ExprRef):
            q = self.classof(st, x)
            if q:
                if self.P.class_attr(q, '__len__')[1]:
                    for r in self.call_attr(st, x, '__len__', [], {}, fr): yield r
                    return
                if self.islist(q): 
                    n = self.llen(st, self.ref(x)); yield st, (n.as_long() if z3.is_int_value(n) else iv(n)); return
                if '__builtin__:dict' in self.P.mro(q) or '__builtin__:set' in self.P.mro(q):
                    yield st, iv(self.card(st, self.dom(st, self.ref(x)))); return
            if self.isstr(st, x): yield st, iv(z3.Length(self.strof(x))); return
            if 'len' in self.iface:
                for r in self.iface['len'](self, st, x): yield r
                return
        raise Unsupported('len of %r' % (x,))
    def card(self, st, dom):
        f = self.uf('card', DOM, I)
        st.pc = st.pc + (f(dom) >= 0,)
        self.assumed.add('the size of a dict/set is a function of its key set')
        return f(dom)
    def bi_isinstance(self, st, args, kw, fr):
        return self.one(st, self.mkbool(self.isinstance_(st, args[0], args[1])))
    def bi_hasattr(self, st, args, kw, fr):
        for s, v in self.hasattr_(st, args[0], args[1], fr): yield s, v
    def hasattr_(self, st, o, name, fr):
        name = self.from_v(name)
        if 'hasattr' in self.iface:
            r = self.iface['hasattr'](self, st, o, name)
            if r is not None:
                for x in r: yield x
                return
        o = self.from_v(o)
        if not isinstance(name, str): raise Unsupported('hasattr with a dynamic name')
        if isinstance(o, z3.ExprRef) and self.classof(st, o) is None and self.ctor(o) not in ('none', 'int', 'bool', 'str', 'nil', 'cons'):
            f = self.uf('hasattr_' + name, V, B)(o)
            if name in ('items', 'iteritems', 'keys', 'next', '__iter__', 'get'):
                st.pc = st.pc + (z3.Implies(f, V.is_obj(o)),)
            yield st, V.bool(f); return
        if isinstance(o, str) or (isinstance(o, z3.ExprRef) and self.ctor(o) == 'str'): yield st, name in STRM; return
        if isinstance(o, Tup) or (isinstance(o, z3.ExprRef) and self.ctor(o) in ('cons', 'nil')): yield st, name in ('index', 'count', '__iter__', '__len__'); return
        if isinstance(o, KwDict): yield st, name in DICTM; return
        if isinstance(o, Func) : yield st, name in ('__name__', '__call__', 'func_name'); return
        for s, v in self.getattr(st, o, name, fr):
            if isinstance(v, Exc):
                if v.cls != 'AttributeError': yield s, v
                else: yield s, False
            else: yield s, True
    def bi_getattr(self, st, args, kw, fr):
        name = self.from_v(args[1])
        if z3.is_expr(name):            # a name that is a literal text by now
            t = z3.simplify(name)
            if self.ctor(t) == 'str' and z3.is_string_value(t.arg(0)): name = t.arg(0).as_string()
        if 'getattr' in self.iface:
            r = self.iface['getattr'](self, st, args)
            if r is not None:
                for x in r: yield x
                return
        if not isinstance(name, str): raise Unsupported('getattr with a dynamic name')
        for s, v in self.getattr(st, args[0], name, fr):
            if isinstance(v, Exc) and v.cls == 'AttributeError' and len(args) > 2: yield s, args[2]
            else: yield s, v
    def bi_setattr(self, st, args, kw, fr):
        name = self.from_v(args[1])
        if 'setattr' in self.iface:
            for x in self.iface['setattr'](self, st, args): yield x
            return
        if not isinstance(name, str): raise Unsupported('setattr with a dynamic name')
        for r in self.setattr(st, args[0], name, args[2], fr): yield r
    def bi_callable(self, st, args, kw, fr):
        x = self.from_v(args[0])
        if isinstance(x, (Func, Bound, Cls, BI, Meth)): return self.one(st, True)
        if isinstance(x, (int, str, type(None), Tup, Symb, NamedInt)): return self.one(st, False)
        c = self.ctor(x)
        if c in ('none', 'int', 'bool', 'str', 'nil', 'cons'): return self.one(st, False)
        f = self.uf('callable', V, B)(x)
        st.pc = st.pc + (z3.Implies(f, z3.Or(V.is_obj(x), V.is_sym(x))),)
        return self.one(st, V.bool(f))
    def bi_id(self, st, args, kw, fr):
        x = self.to_v(args[0])
        p = self.pyid(x)
        inv = self.uf('pyid_inv', I, V)
        st.pc = st.pc + (inv(p) == x,)         # identities are unique
        return self.one(st, V.int(p))
    def bi_type(self, st, args, kw, fr):
        if len(args) == 1:
            x = self.from_v(args[0])
            if isinstance(x, z3.ExprRef) and self.classof(st, x): return self.one(st, Cls(self.classof(st, x)))
            if isinstance(x, str): return self.one(st, Cls('__builtin__:unicode'))
            if 'typeof' in self.iface: return self.one(st, self.iface['typeof'](self, st, x))
            if isinstance(x, bool): return self.one(st, Cls('__builtin__:bool'))
            if isinstance(x, int): return self.one(st, Cls('__builtin__:int'))
            return self.type_split(st, self.to_v(x))
        raise Unsupported('type()')
    def class_split(self, st, v, fr):
        for s, b in self.split(st, V.is_obj(v)):
            for r in (self.v_attr(s, v, '__class__', fr) if b else self.type_split(s, v)): yield r
    def type_split(self, st, v):
        for test, n in ((V.is_int(v), 'int'), (V.is_str(v), 'unicode'), (V.is_bool(v), 'bool'), (v == NONE, 'NoneType')):
            rest = None
            for s, b in self.split(st, test):
                if b: yield s, Cls('__builtin__:' + n)
                else: rest = s
            if rest is None: return
            st = rest
        raise Unsupported('type() of an unknown value')
    def bi_super(self, st, args, kw, fr):
        return self.one(st, SuperV(self.from_v(args[0]), args[1]))
    def bi_iter(self, st, args, kw, fr):
        x = self.from_v(args[0])
        if isinstance(x, z3.ExprRef):
            q = self.classof(st, x)
            if q and self.P.class_attr(q, '__iter__')[1]:
                return self.call_attr(st, x, '__iter__', [], {}, fr)
            if q and self.islist(q): return self.one(st, ListIter(self.ref(x)))
            if q and '__builtin__:dict' in self.P.mro(q): return self.one(st, DictIter(self.ref(x), 'keys'))
        return self.one(st, x)
    def bi_reversed(self, st, args, kw, fr):
        x = self.from_v(args[0])
        if isinstance(x, Tup): return self.one(st, Tup(list(reversed(x.items))))
        return self.one(st, Rev(x))
    def bi_enumerate(self, st, args, kw, fr): return self.one(st, Enum(args[0]))
    def bi_zip(self, st, args, kw, fr): return self.one(st, Zip(args))
    bi_itertools_izip = bi_zip
    def bi_itertools_chain(self, st, args, kw, fr): return self.one(st, Chain([self.from_v(a) for a in args]))
    def bi_xrange(self, st, args, kw, fr):
        def go(i, s, acc):
            if i == len(args):
                lo, hi = (z3.IntVal(0), acc[0]) if len(acc) == 1 else (acc[0], acc[1])
                yield s, Rng(lo, hi); return
            for s2, x in self.need_int(s, args[i]):
                if isinstance(x, Exc): yield s2, x
                else:
                    for r in go(i + 1, s2, acc + [x]): yield r
        return go(0, st, [])
    bi_range = bi_xrange
    bi_six_moves_xrange = bi_xrange
    bi_six_moves_range = bi_xrange
    def collect(self, st, src, fr):
        """materialise an iterable: yields (st, list object)"""
        src = self.from_v(src)
        if isinstance(src, z3.ExprRef) and self.classof(st, src) is None and 'iter' not in self.iface and self.ctor(src) is not None:
            if self.ctor(src) in ('none', 'int', 'bool'): yield st, Exc('TypeError'); return
        sq = self.as_seq(src, st)
        if sq is not None and not (isinstance(src, z3.ExprRef) and self.P.class_attr(self.classof(st, src), '__iter__')[1]):
            s = st.clone(); yield s, self.newlist_sym(s, sq[0], sq[1]); return
        if isinstance(src, Rev):
            sq = self.as_seq(src.src, st)
            if sq is not None:
                s = st.clone(); j = z3.Int('j!r'); n = sq[0]
                yield s, self.newlist_sym(s, n, z3.Lambda([j], z3.Select(sq[1], n - 1 - j))); return
        if isinstance(src, DictIter):
            r = self.dict_accessor(st, src)
            s, (ln, item) = r
            n, ks, ix = self.last_dict_order
            if src.what == 'keys':
                s = s.clone(); yield s, self.newlist_sym(s, n, ks); return
            j = z3.Int('j!r'); mp = self.dmap(s, src.ref)
            k = z3.Select(ks, j); v = z3.Select(mp, k)
            if any(src.ref.eq(x) for x in self.textkeyed): k = V.str(V.s(k))      # its keys are text: the same value
            s = s.clone()
            yield s, self.newlist_sym(s, n, z3.Lambda([j], v if src.what == 'values' else V.cons(k, V.cons(v, NIL)))); return
        if isinstance(src, z3.ExprRef) and self.classof(st, src):
            m = self.P.mro(self.classof(st, src))
            if ('__builtin__:dict' in m or '__builtin__:set' in m) and not self.P.class_attr(self.classof(st, src), '__iter__')[1]:
                for r in self.collect(st, DictIter(self.ref(src), 'keys'), fr): yield r
                return
        if isinstance(src, Gen) and hasattr(src, 'comp'):
            e, f2, s0 = src.comp
            if len(e.generators) == 1 and not e.generators[0].ifs:
                r = self.pure_map(e.elt, e.generators[0].target, s0, st, f2)
                if r is not None:
                    s2, n, arr = r; s2 = s2.clone(); yield s2, self.newlist_sym(s2, n, arr); return
        if isinstance(src, Chain):
            def go(i, s, out):
                if i == len(src.srcs): yield s, out; return
                for s2, l in self.collect(s, src.srcs[i], fr):
                    if isinstance(l, Exc): yield s2, l; continue
                    s2 = s2.clone(); r = self.ref(l)
                    self.lextend(s2, self.ref(out), self.llen(s2, r), self.larr(s2, r))
                    for x in go(i + 1, s2, out): yield x
            s = st.clone(); out = self.newlist(s)
            for x in go(0, s, out): yield x
            return
        s = st.clone(); out = self.newlist(s); ref = self.ref(out)
        def step(s2, v):
            s2 = s2.clone(); self.lappend(s2, ref, v)
            if 'on:yield' in self.ext and len(self.collecting) == 1: s2 = self.ext['on:yield'](self, s2, v)
            yield s2, None
        self.collecting = self.collecting + [ref]; self.lcout = ref
        try:
            for s2, fl in self.iterate(s, src, step, fr, N_COLLECT(src, ref)):
                if fl is None: yield s2, out
                elif fl[0] == 'exc': yield s2, fl[1]
                else: raise Unsupported('flow out of list()')
        finally: self.collecting = self.collecting[:-1]
    def bi_list(self, st, args, kw, fr):
        if not args:
            s = st.clone(); return self.one(s, self.newlist(s))
        x = self.from_v(args[0])
        if isinstance(x, Tup):
            s = st.clone(); return self.one(s, self.newlist(s, x.items))
        return self.collect(st, x, fr)
    def bi_tuple(self, st, args, kw, fr):
        if not args: yield st, Tup([]); return
        x = self.from_v(args[0])
        if isinstance(x, Tup): yield st, x; return
        for s, l in self.collect(st, x, fr):
            if isinstance(l, Exc): yield s, l; continue
            r = self.ref(l); n = self.llen(s, r); a = self.larr(s, r)
            if z3.is_int_value(n): yield s, Tup([z3.simplify(z3.Select(a, z3.IntVal(i))) for i in range(n.as_long())])
            else: yield s, SeqVal(n, a)
    def bi_deque(self, st, args, kw, fr):
        for s, l in self.bi_list(st, args, kw, fr):
            if isinstance(l, Exc): yield s, l; continue
            self.setclass(s, l, 'collections:deque'); yield s, l
    bi_collections_deque = bi_deque
    def bi_set(self, st, args, kw, fr):
        if not args:
            s = st.clone(); yield s, self.newdict(s, (), '__builtin__:set'); return
        x = self.from_v(args[0])
        if isinstance(x, str): x = Tup(list(x))
        if isinstance(x, Tup):
            s = st.clone(); yield s, self.newdict(s, [(i, None) for i in x.items], '__builtin__:set'); return
        if isinstance(x, DictIter) and x.what == 'keys':
            s = st.clone(); v = self.alloc(s, '__builtin__:set'); self.dset(s, self.ref(v), self.dom(s, x.ref), self.EMPTYMAP); yield s, v; return
        if isinstance(x, z3.ExprRef) and self.classof(st, x) and not self.P.class_attr(self.classof(st, x), '__iter__')[1]:
            m = self.P.mro(self.classof(st, x))
            if '__builtin__:dict' in m or '__builtin__:set' in m:
                s = st.clone(); v = self.alloc(s, '__builtin__:set')
                self.dset(s, self.ref(v), self.dom(s, self.ref(x)), self.EMPTYMAP); yield s, v; return
        for s, l in self.collect(st, x, fr):
            if isinstance(l, Exc): yield s, l; continue
            s = s.clone(); r = self.ref(l); n, a = self.llen(s, r), self.larr(s, r)
            v = self.alloc(s, '__builtin__:set'); k = z3.Const('k!s', V); j = z3.Int('j!s')
            if z3.is_int_value(n) and n.as_long() <= 12:
                d = self.EMPTYDOM
                for i in range(n.as_long()): d = z3.Store(d, z3.simplify(z3.Select(a, z3.IntVal(i))), z3.BoolVal(True))
            else:
                d = z3.Lambda([k], z3.Exists([j], z3.And(0 <= j, j < n, z3.Select(a, j) == k)))
            self.dset(s, self.ref(v), d, self.EMPTYMAP)
            yield s, v
    bi_frozenset = bi_set
    def bi_dict(self, st, args, kw, fr):
        if not args:
            s = st.clone(); yield s, self.newdict(s, list(kw.items())); return
        x = self.from_v(args[0])
        if isinstance(x, z3.ExprRef) and self.classof(st, x) and '__builtin__:dict' in self.P.mro(self.classof(st, x)):
            s = st.clone(); v = self.alloc(s, '__builtin__:dict'); r = self.ref(x)
            self.dset(s, self.ref(v), self.dom(s, r), self.dmap(s, r))
            for k, y in kw.items(): self.dput(s, self.ref(v), sv(k), y)
            yield s, v; return
        if isinstance(x, Tup):
            s = st.clone(); items = []
            for it in x.items:
                it = self.from_v(it)
                if not isinstance(it, Tup) or len(it.items) != 2: raise Unsupported('dict(pairs)')
                items.append(tuple(it.items))
            yield s, self.newdict(s, items + list(kw.items())); return
        if isinstance(x, DictIter) and x.what == 'items':
            s = st.clone(); v = self.alloc(s, '__builtin__:dict'); self.dset(s, self.ref(v), self.dom(s, x.ref), self.dmap(s, x.ref))
            for k, y in kw.items(): self.dput(s, self.ref(v), sv(k), y)
            yield s, v; return
        seq = None
        if isinstance(x, Gen) and hasattr(x, 'comp'):
            e, f2, s0 = x.comp
            if len(e.generators) == 1 and not e.generators[0].ifs: seq = self.pure_map(e.elt, e.generators[0].target, s0, st, f2)
        if seq is not None:
            # dict(pairs): the last pair of a key gives its value; lw(x) is where it stands
            s, n, arr = seq; s = s.clone(); j = z3.Int('j!dp'); k = z3.Const('k!dp', V)
            e = z3.simplify(z3.Select(arr, j)); kj, vj = z3.simplify(V.hd(e)), z3.simplify(V.hd(V.tl(e)))
            D, M, W = self.fresh(DOM, 'dpd'), self.fresh(MAP, 'dpm'), self.fresh(z3.ArraySort(V, I), 'dpw'); w = z3.Select(W, k)
            at = lambda t, i: z3.substitute(t, (j, i))
            pats = [z3.Select(a, i) for a, i in selects(e, j) if i.eq(j) and not mentions(a, j) and not haslambda(a)][:1]
            A = lambda vs, b, *ps: z3.ForAll(vs, b, patterns=list(ps)) if ps else z3.ForAll(vs, b)
            ok = z3.And(0 <= j, j < n)
            s.pc = s.pc + (A([j], z3.Implies(ok, z3.And(z3.Select(D, kj), j <= z3.Select(W, kj))), *pats),
                           A([k], z3.Implies(z3.Select(D, k), z3.And(0 <= w, w < n, at(kj, w) == k, z3.Select(M, k) == at(vj, w))), z3.Select(D, k), z3.Select(M, k)))
            v = self.alloc(s, '__builtin__:dict'); self.dset(s, self.ref(v), D, M)
            for k, y in kw.items(): self.dput(s, self.ref(v), sv(k), y)
            yield s, v; return
        s = st.clone(); out = self.newdict(s); ref = self.ref(out)
        def step(s2, v):
            for s3, it in self.unpack(s2, v, 2):
                if isinstance(it, Exc): yield s3, ('exc', it); continue
                s3 = s3.clone(); self.dput(s3, ref, self.to_v(it[0]), it[1]); yield s3, None
        for s2, fl in self.iterate(s, x, step, fr, N_COLLECT(x, ref)):
            if fl is None:
                for k, y in kw.items(): self.dput(s2, ref, sv(k), y)
                yield s2, out
            elif fl[0] == 'exc': yield s2, fl[1]
            else: raise Unsupported('flow out of dict()')
    def bi_bool(self, st, args, kw, fr):
        t = self.simple_truth(st, args[0], fr)
        if t is not None: yield st, self.mkbool(t); return
        for r in self.branch(st, args[0], fr): yield r
    def bi_min(self, st, args, kw, fr): return self.minmax(st, args, kw, fr, True)
    def bi_max(self, st, args, kw, fr): return self.minmax(st, args, kw, fr, False)
    def minmax(self, st, args, kw, fr, mn):
        if len(args) == 1 or kw:
            h = self.ext.get('minmax')
            if h: 
                for r in h(self, st, args, kw, mn): yield r
                return
            if not kw:
                x = self.from_v(args[0])
                sq = self.as_seq(x, st)
                if sq is not None:
                    n, a = sq
                    for s, b in self.split(st, n > 0):
                        if not b: yield s, Exc('ValueError'); continue
                        s = s.clone(); r = self.fresh(V, 'mm'); w = self.fresh(I, 'w'); j = z3.Int('j!x')
                        self.assumed.add('min()/max() of a sequence is applied to integers')
                        g = (lambda u: V.i(r) <= V.i(u)) if mn else (lambda u: V.i(r) >= V.i(u))
                        s.pc = s.pc + (0 <= w, w < n, r == z3.Select(a, w), V.is_int(r), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), g(z3.Select(a, j)))))
                        yield s, r
                    return
            raise Unsupported('min/max')
        if all(isinstance(self.from_v(a), int) for a in args):
            yield st, (min if mn else max)(*[self.from_v(a) for a in args]); return
        def go(i, s, acc):
            if i == len(args):
                r = acc[0]
                for x in acc[1:]: r = z3.If(x < r, x, r) if mn else z3.If(x > r, x, r)
                yield s, iv(z3.simplify(r)); return
            for s2, x in self.need_int(s, args[i]):
                if isinstance(x, Exc): raise Unsupported('min/max of non-integers')
                for r in go(i + 1, s2, acc + [x]): yield r
        for r in go(0, st, []): yield r
    def quantified(self, st, src, fr):
        """(st, n, cond(j), truth term(j)) of a pure generator over a symbolic sequence, else None"""
        if not isinstance(src, Gen) or not hasattr(src, 'comp'): return None
        e, f2, s0 = src.comp
        if len(e.generators) != 1: return None
        sq = self.as_seq(s0, st)
        if sq is None or z3.is_int_value(sq[0]): return None
        q = self.classof(st, s0) if isinstance(s0, z3.ExprRef) else None
        if q and self.P.class_attr(q, '__iter__')[1]: return None
        n, arr = sq
        j = self.fresh(I, 'j'); s = st.clone(); s.pc = s.pc + (j >= 0, j < n)
        sid = self.newsid(); fr2 = Frame(None, sid, (sid,) + tuple(f2.scopes), f2.mod, f2.cls)
        fr2.locals = assigned([e.generators[0].target])[0]
        if not self.bind_simple(e.generators[0].target, z3.simplify(z3.Select(arr, j)), s, fr2): return None
        h0 = dict(s.heap); base = len(s.pc)
        terms = []
        self.dry += 1
        try:
            g = e.generators[0]
            def conds(s, ifs, acc):
                if not ifs:
                    for s2, v in self.ev(e.elt, s, fr2):
                        if isinstance(v, Exc): raise Unsupported('x')
                        t = self.simple_truth(s2, v, fr2)
                        if t is None: raise Unsupported('x')
                        terms.append((s2, True, t))
                    return
                for s2, c in self.ev(ifs[0], s, fr2):
                    if isinstance(c, Exc): raise Unsupported('x')
                    for s3, b in self.branch(s2, c, fr2):
                        if isinstance(b, Exc): raise Unsupported('x')
                        if b: conds(s3, ifs[1:], acc)
                        else: terms.append((s3, False, None))
            conds(s, g.ifs or [], [])
        except (Unsupported, SpecMismatch): return None
        finally: self.dry -= 1
        out = []
        for s2, inc, t in terms:
            if any(s2.heap.get(k) is not h0.get(k) for k in s2.heap if k in h0): return None
            out.append((z3.And([z3.BoolVal(True)] + list(s2.pc[base:])), inc, t))
        return n, j, out
    def anyall(self, st, args, fr, is_any):
        src = self.from_v(args[0])
        q = self.quantified(st, src, fr)
        if q is None and isinstance(src, z3.ExprRef):
            sq = self.as_seq(src, st)
            if sq and not z3.is_int_value(z3.simplify(sq[0])):
                jq = self.fresh(I, 'j'); t = self.truth(st, z3.Select(sq[1], jq)); q = sq[0], jq, [(z3.BoolVal(True), True, t)]
        if q is not None:
            n, j, terms = q
            hit = z3.Or([z3.BoolVal(False)] + [z3.And(pc, t if is_any else (not t if isinstance(t, bool) else z3.Not(t))) for pc, inc, t in terms if inc])
            # count by the index into the underlying array, so that the quantifier has a usable trigger
            jj = z3.Int('j!q'); off, pats = z3.IntVal(0), []
            for a, i in selects(z3.simplify(hit), j):
                k = z3.simplify(i - j)
                if not mentions(k, j) and not mentions(a, j): off = k; break
            body = z3.simplify(z3.substitute(hit, (j, jj - off)))
            pats = [z3.Select(a, i) for a, i in selects(body, jj) if i.eq(jj) and not mentions(a, jj) and not haslambda(a)][:3]
            rng = z3.And(off <= jj, jj < n + off)
            ex = z3.Exists([jj], z3.And(rng, body), patterns=pats) if pats else z3.Exists([jj], z3.And(rng, body))
            yield st, V.bool(ex if is_any else z3.Not(ex)); return
        def step(s, v):
            for s2, b in self.branch(s, v, fr):
                if isinstance(b, Exc): yield s2, ('exc', b)
                elif b == is_any: yield s2, ('$done',)
                else: yield s2, None
        for s, fl in self.iterate(st, src, step, fr, N_COLLECT(src, None)):
            if fl is None: yield s, not is_any
            elif fl == ('$done',): yield s, is_any
            elif fl[0] == 'exc': yield s, fl[1]
            else: raise Unsupported('flow in any/all')
    def bi_any(self, st, args, kw, fr): return self.anyall(st, args, fr, True)
    def bi_all(self, st, args, kw, fr): return self.anyall(st, args, fr, False)
    def bi_unicode(self, st, args, kw, fr):
        if not args: yield st, ''; return
        x = self.from_v(args[0])
        if isinstance(x, str): yield st, x; return
        if isinstance(x, int) and not isinstance(x, bool): yield st, str(x); return
        if self.isstr(st, x): yield st, x; return
        self.assumed.add('unicode(x) is a function of x (identity on text, decimal on integers)')
        v = self.to_v(x); f = self.uf('uni', V, S)
        i = z3.If(V.i(v) < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-V.i(v))), z3.IntToStr(V.i(v)))
        yield st, V.str(z3.simplify(z3.If(V.is_str(v), V.s(v), f(v))))
    bi_six_text_type = bi_unicode
    bi_str = bi_unicode
    def bi_repr(self, st, args, kw, fr):
        return self.one(st, V.str(self.uf('repr', V, S)(self.to_v(args[0]))))
    def bi_object(self, st, args, kw, fr):
        s = st.clone(); return self.one(s, self.alloc(s, '__builtin__:object'))
    def bi_slice(self, st, args, kw, fr):
        a = list(args)
        if len(a) == 1: return self.one(st, SliceV(None, a[0], None))
        return self.one(st, SliceV(a[0], a[1], a[2] if len(a) > 2 else None))
    def bi_six_iteritems(self, st, args, kw, fr): return self.call_attr(st, args[0], 'iteritems', [], {}, fr)
    def bi_six_iterkeys(self, st, args, kw, fr): return self.call_attr(st, args[0], 'iterkeys', [], {}, fr)
    def bi_six_itervalues(self, st, args, kw, fr): return self.call_attr(st, args[0], 'itervalues', [], {}, fr)
    def bi_property(self, st, args, kw, fr): raise Unsupported('property()')
    def bi_abs(self, st, args, kw, fr):
        for s, x in self.need_int(st, args[0]):
            yield s, (x if isinstance(x, Exc) else iv(z3.simplify(z3.If(x < 0, -x, x))))
    def bi_int(self, st, args, kw, fr):
        x = self.from_v(args[0])
        if isinstance(x, int): yield st, int(x); return
        v = self.to_v(x)
        ok = self.uf('int_ok', V, B)(v); f = self.uf('int_of', V, I)(v)
        self.assumed.add('int(x) of text is a partial function of the text (identity on integers)')
        for s, b in self.split(st, z3.Or(self.isnum(v), ok)):
            if b: yield s, iv(z3.If(self.isnum(v), self.numval(v), f))
            else:
                for s2, t in self.split(s, V.is_str(v)): yield s2, Exc('ValueError' if t else 'TypeError')
    bi_long = bi_int
    def bi_divmod(self, st, args, kw, fr):
        for s, a in self.binop(st, 'FloorDiv', args[0], args[1], fr):
            if isinstance(a, Exc): yield s, a; continue
            for s2, b in self.binop(s, 'Mod', args[0], args[1], fr):
                yield s2, (b if isinstance(b, Exc) else Tup([a, b]))
    def bi_sum(self, st, args, kw, fr):
        cell = ['$sum%d' % self.newsid()]
        s = st.clone(); key = (0, cell[0]); s.loc[key] = args[1] if len(args) > 1 else 0
        def step(s2, v):
            for s3, r in self.binop(s2, 'Add', s2.loc[key], v, fr):
                if isinstance(r, Exc): yield s3, ('exc', r); continue
                s3 = s3.clone(); s3.loc[key] = r
                if s3.writes is not None: s3.writes.setdefault(('loc',) + key, []).append(None)
                yield s3, None
        for s2, fl in self.iterate(s, args[0], step, fr, N_COLLECT(args[0], None)):
            if fl is None: yield s2, s2.loc[key]
            elif fl[0] == 'exc': yield s2, fl[1]
            else: raise Unsupported('flow in sum')
    def bi_map(self, st, args, kw, fr):
        f = args[0]
        s = st.clone(); out = self.newlist(s); ref = self.ref(out)
        def step(s2, v):
            for s3, r in self.call(s2, f, [v], {}, fr):
                if isinstance(r, Exc): yield s3, ('exc', r); continue
                s3 = s3.clone(); self.lappend(s3, ref, r); yield s3, None
        for s2, fl in self.iterate(s, args[1], step, fr, N_COLLECT(args[1], ref)):
            if fl is None: yield s2, out
            elif fl[0] == 'exc': yield s2, fl[1]
            else: raise Unsupported('flow in map')
    # ------------------------------------------------------------ methods of built-in types
    def call_meth(self, st, m, args, kw, fr):
        o = self.from_v(m.o); n = m.name
        if n.startswith('@'):
            return self.icall[n[1:]](self, st, o, args, kw)
        if n.startswith('raw:'):
            base, n = n[4:].split('.')
            if base == 'object':
                if n == '__setattr__':
                    s = st.clone(); self.setf(s, self.ref(o), self.from_v(args[0]), args[1]); return self.one(s, None)
                if n == '__init__': return self.one(st, None)
                raise Unsupported('object.' + n)
            if base in ('str', 'unicode'): return self.str_meth(st, o, n, args, kw, fr)
            return getattr(self, base + '_meth')(st, o, n, args, kw, fr)
        if isinstance(o, KwDict): return self.kw_meth(st, o, n, args, kw, fr)
        if isinstance(o, str): return self.str_meth(st, o, n, args, kw, fr)
        if isinstance(o, Regex): return self.re_meth(st, o, n, args, kw, fr)
        if isinstance(o, Gen) and n == 'next': raise Unsupported('generator.next')
        if isinstance(o, Tup):
            if n == 'index' or n == 'count': raise Unsupported('tuple.' + n)
            raise Unsupported('tuple.' + n)
        if isinstance(o, z3.ExprRef):
            q = self.classof(st, o)
            if q is None:
                if self.isstr(st, o): return self.str_meth(st, o, n, args, kw, fr)
            else:
                mr = self.P.mro(q)
                if self.islist(q): return self.list_meth(st, o, n, args, kw, fr)
                if '__builtin__:dict' in mr: return self.dict_meth(st, o, n, args, kw, fr)
                if '__builtin__:set' in mr: return self.set_meth(st, o, n, args, kw, fr)
        raise Unsupported('method %s of %r' % (n, o))
    def kw_meth(self, st, o, n, args, kw, fr): raise Unsupported('kwargs.' + n)
    def seqarg(self, st, x, fr):
        """yields (st, n, arr) of an iterable argument (materialised)"""
        x = self.from_v(x)
        if isinstance(x, Tup):
            a = z3.K(I, ABSENT)
            for k, y in enumerate(x.items): a = z3.Store(a, z3.IntVal(k), self.to_v(y))
            yield st, z3.IntVal(len(x.items)), a; return
        for s, l in self.collect(st, x, fr):
            if isinstance(l, Exc): yield s, l, None; continue
            yield s, self.llen(s, self.ref(l)), self.larr(s, self.ref(l))
    def list_meth(self, st, o, n, args, kw, fr):
        ref = self.ref(o)
        h = self.ext.get('on:list.' + n)          # ghost bookkeeping of a contract
        if h is not None: st = h(self, st, o, args)
        if n == 'append':
            s = st.clone(); self.lappend(s, ref, args[0]); yield s, None; return
        if n == 'appendleft': n, args = 'insert', [0] + args
        if n == 'extend' or n == '__iadd__':
            for s, m, a in self.seqarg(st, args[0], fr):
                if isinstance(m, Exc): yield s, m; continue
                s = s.clone(); self.lextend(s, ref, m, a); yield s, (None if n == 'extend' else o)
            return
        if n == '__init__':
            if not args: 
                s = st.clone(); self.lset(s, ref, z3.IntVal(0), z3.K(I, ABSENT)); yield s, None; return
            for s, m, a in self.seqarg(st, args[0], fr):
                if isinstance(m, Exc): yield s, m; continue
                s = s.clone(); self.lset(s, ref, m, a); yield s, None
            return
        L, A = self.llen(st, ref), self.larr(st, ref); j = z3.Int('j!l')
        if n == 'insert':
            for s, x in self.need_int(st, args[0]):
                if isinstance(x, Exc): yield s, x; continue
                p = z3.If(x < 0, z3.If(x + L < 0, 0, x + L), z3.If(x > L, L, x)); p = z3.simplify(p)
                s = s.clone(); v = self.to_v(args[1])
                self.lset(s, ref, z3.simplify(L + 1), z3.Lambda([j], z3.If(j < p, z3.Select(A, j), z3.If(j == p, v, z3.Select(A, j - 1)))))
                yield s, None
            return
        if n in ('pop', 'popleft'):
            ix = 0 if n == 'popleft' else (args[0] if args else -1)
            for s, x in self.need_int(st, ix):
                if isinstance(x, Exc): yield s, x; continue
                ok, p = self.norm_index(s, x, L)
                for s2, b in self.split(s, ok):
                    if not b: yield s2, Exc('IndexError'); continue
                    s2 = s2.clone(); v = self.lget(s2, ref, p)
                    self.lset(s2, ref, z3.simplify(L - 1), A if n == 'pop' and not args else z3.Lambda([j], z3.If(j < p, z3.Select(A, j), z3.Select(A, j + 1))))
                    yield s2, v
            return
        if n in ('remove', 'index'):
            x = args[0]
            has = self.lcontains(st, L, A, x)
            for s, b in self.split(st, has):
                if not b: yield s, Exc('ValueError'); continue
                s = s.clone(); p = self.fresh(I, 'p'); jj = z3.Int('j!f')
                s.pc = s.pc + (0 <= p, p < L, self.eq(s, z3.Select(A, p), x),
                               z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < p), z3.Not(self.eq(s, z3.Select(A, jj), x)))))
                self.setcomp(s, 'gn.found', p, None)
                if n == 'index': yield s, iv(p)
                else:
                    R = self.fresh(AV, 'rest'); s.pc = s.pc + (z3.ForAll([j], z3.Select(R, j) == z3.If(j < p, z3.Select(A, j), z3.Select(A, j + 1)), patterns=[z3.Select(R, j)]),)
                    self.lset(s, ref, z3.simplify(L - 1), R); yield s, None
            return
        if n == 'reverse':
            s = st.clone(); self.lset(s, ref, L, z3.Lambda([j], z3.Select(A, L - 1 - j))); yield s, None; return
        if n == 'clear':
            s = st.clone(); self.lset(s, ref, z3.IntVal(0), z3.K(I, ABSENT)); yield s, None; return
        if n == 'sort':
            s = st.clone(); B2 = self.fresh(AV, 'sorted'); pm = self.fresh(z3.ArraySort(I, I), 'perm'); jn = z3.Int('j!p'); k = z3.Int('k!p')
            self.assumed.add('list.sort permutes the list')
            s.pc = s.pc + (z3.ForAll([jn], z3.Implies(z3.And(0 <= jn, jn < L), z3.And(0 <= z3.Select(pm, jn), z3.Select(pm, jn) < L, z3.Select(B2, jn) == z3.Select(A, z3.Select(pm, jn))))),
                           z3.ForAll([jn, k], z3.Implies(z3.And(0 <= jn, jn < k, k < L), z3.Select(pm, jn) != z3.Select(pm, k))))
            self.lset(s, ref, L, B2); yield s, None; return
        if n == '__len__': yield st, iv(L); return
        if n == '__iter__': yield st, ListIter(ref); return
        if n == '__contains__': yield st, self.mkbool(self.lcontains(st, L, A, args[0])); return
        if n == '__getitem__':
            for r in self.raw_getitem(st, o, '__builtin__:list', self.from_v(args[0])): yield r
            return
        if n == '__getslice__':
            for r in self.raw_getitem(st, o, '__builtin__:list', SliceV(args[0], args[1], None)): yield r
            return
        if n == '__setitem__':
            for r in self.raw_setitem(st, o, '__builtin__:list', self.from_v(args[0]), args[1]): yield r
            return
        if n == '__delitem__':
            for r in self.raw_delitem(st, o, '__builtin__:list', self.from_v(args[0])): yield r
            return
        if n == 'count': 
            yield st, iv(self.uf('lcount', I, AV, V, I)(L, A, self.to_v(args[0]))); return
        raise Unsupported('list.' + n)
    def dict_meth(self, st, o, n, args, kw, fr):
        ref = self.ref(o)
        if n in ('get', 'pop', 'setdefault'):
            k = self.to_v(args[0])
            for s, b in self.split(st, self.dhas(st, ref, k)):
                if b:
                    v = self.dget(s, ref, k)
                    if n == 'pop': s = s.clone(); self.ddel(s, ref, k)
                    yield s, v
                elif n == 'get': yield s, (args[1] if len(args) > 1 else None)
                elif n == 'pop': yield s, (args[1] if len(args) > 1 else Exc('KeyError'))
                else:
                    s = s.clone(); d = args[1] if len(args) > 1 else None; self.dput(s, ref, k, d); yield s, d
            return
        if n in ('items', 'iteritems', 'keys', 'iterkeys', 'values', 'itervalues', '__iter__'):
            what = {'items': 'items', 'iteritems': 'items', 'keys': 'keys', 'iterkeys': 'keys', '__iter__': 'keys', 'values': 'values', 'itervalues': 'values'}[n]
            yield st, DictIter(ref, what); return
        if n in ('__contains__', 'has_key'): yield st, self.mkbool(self.dhas(st, ref, self.to_v(args[0]))); return
        if n == '__getitem__':
            for r in self.raw_getitem(st, o, '__builtin__:dict', self.from_v(args[0])): yield r
            return
        if n == '__setitem__':
            for r in self.raw_setitem(st, o, '__builtin__:dict', self.from_v(args[0]), args[1]): yield r
            return
        if n == '__delitem__':
            for r in self.raw_delitem(st, o, '__builtin__:dict', self.from_v(args[0])): yield r
            return
        if n == 'clear':
            s = st.clone(); self.dset(s, ref, self.EMPTYDOM, self.EMPTYMAP); yield s, None; return
        if n == 'copy':
            s = st.clone(); v = self.alloc(s, '__builtin__:dict'); self.dset(s, self.ref(v), self.dom(s, ref), self.dmap(s, ref)); yield s, v; return
        if n in ('update', '__init__'):
            k = z3.Const('k!u', V)
            s = st.clone()
            if n == '__init__': self.dset(s, ref, self.EMPTYDOM, self.EMPTYMAP)
            if args:
                x = self.from_v(args[0])
                if isinstance(x, z3.ExprRef) and self.classof(s, x) and '__builtin__:dict' in self.P.mro(self.classof(s, x)):
                    d1, m1, d2, m2 = self.dom(s, ref), self.dmap(s, ref), self.dom(s, self.ref(x)), self.dmap(s, self.ref(x))
                    self.dset(s, ref, z3.Lambda([k], z3.Or(z3.Select(d1, k), z3.Select(d2, k))), z3.Lambda([k], z3.If(z3.Select(d2, k), z3.Select(m2, k), z3.Select(m1, k))))
                else:
                    outs = []
                    def step(s2, v):
                        for s3, it in self.unpack(s2, v, 2):
                            if isinstance(it, Exc): yield s3, ('exc', it); continue
                            s3 = s3.clone(); self.dput(s3, ref, self.to_v(it[0]), it[1]); yield s3, None
                    for s2, fl in self.iterate(s, x, step, fr, N_COLLECT(x, ref)):
                        if fl is None:
                            for kk, y in kw.items(): self.dput(s2, ref, sv(kk), y)
                            yield s2, None
                        elif fl[0] == 'exc': yield s2, fl[1]
                    return
            for kk, y in kw.items(): self.dput(s, ref, sv(kk), y)
            yield s, None; return
        if n == '__len__': yield st, iv(self.card(st, self.dom(st, ref))); return
        if n == 'popitem' and not args:
            x = self.fresh(V, 'popped'); d = self.dom(st, ref); k = z3.Const('k!pi', V)
            s = st.clone(); s.pc = s.pc + (z3.ForAll([k], z3.Not(z3.Select(d, k)), patterns=[z3.Select(d, k)]),)
            if self.check(s.pc) != z3.unsat: yield s, Exc('KeyError')
            s = st.clone(); s.pc = s.pc + (z3.Select(d, x),); v = self.dget(s, ref, x); self.ddel(s, ref, x) if hasattr(self, 'ddel') else self.dset(s, ref, z3.Store(d, x, z3.BoolVal(False)), self.dmap(s, ref)); yield s, Tup([x, v]); return
        raise Unsupported('dict.' + n)
    def set_meth(self, st, o, n, args, kw, fr):
        ref = self.ref(o)
        if n == 'add':
            s = st.clone(); self.setcomp(s, 'dom', z3.Store(self.comp(s, 'dom'), ref, z3.Store(self.dom(s, ref), self.to_v(args[0]), z3.BoolVal(True))), ref); yield s, None; return
        if n == 'discard':
            s = st.clone(); self.ddel(s, ref, self.to_v(args[0])); yield s, None; return
        if n == 'remove':
            for s, b in self.split(st, self.dhas(st, ref, self.to_v(args[0]))):
                if b: s = s.clone(); self.ddel(s, ref, self.to_v(args[0])); yield s, None
                else: yield s, Exc('KeyError')
            return
        if n in ('union', 'difference', 'intersection', 'update'):
            for s, x in self.bi_set(st, [args[0]], {}, fr):
                if isinstance(x, Exc): yield s, x; continue
                s = s.clone(); k = z3.Const('k!s', V); d1, d2 = self.dom(s, ref), self.dom(s, self.ref(x))
                a, b = z3.Select(d1, k), z3.Select(d2, k)
                t = {'union': z3.Or(a, b), 'update': z3.Or(a, b), 'difference': z3.And(a, z3.Not(b)), 'intersection': z3.And(a, b)}[n]
                if n == 'update': self.dset(s, ref, z3.Lambda([k], t), self.EMPTYMAP); yield s, None; continue
                v = self.alloc(s, '__builtin__:set'); self.dset(s, self.ref(v), z3.Lambda([k], t), self.EMPTYMAP); yield s, v
            return
        if n == 'copy':
            s = st.clone(); v = self.alloc(s, '__builtin__:set'); self.dset(s, self.ref(v), self.dom(s, ref), self.EMPTYMAP); yield s, v; return
        if n in ('issubset', 'issuperset'):
            for s, x in self.bi_set(st, [args[0]], {}, fr):
                k = z3.Const('k!s', V); d1, d2 = self.dom(s, ref), self.dom(s, self.ref(x))
                if n == 'issuperset': d1, d2 = d2, d1
                yield s, V.bool(z3.ForAll([k], z3.Implies(z3.Select(d1, k), z3.Select(d2, k))))
            return
        raise Unsupported('set.' + n)
    def str_meth(self, st, o, n, args, kw, fr):
        o = self.from_v(o)
        a = [self.from_v(x) for x in args]
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and n in ('strip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'isdigit', 'lstrip', 'rstrip', 'find', 'title'):
            yield st, getattr(o, n)(*a); return
        h = self.ext.get('str.' + n)
        if h is not None:
            for r in h(self, st, o, args, kw): yield r
            return
        sx = self.strof(o)
        if n in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'title') and not a:
            self.assumed.add('text.%s() is an uninterpreted function of the text' % n)
            yield st, V.str(self.uf('str_' + n, S, S)(sx)); return
        if n in ('startswith', 'endswith'):
            if not self.isstr(st, a[0]): raise Unsupported(n)
            p = self.strof(a[0])
            yield st, self.mkbool(z3.PrefixOf(p, sx) if n == 'startswith' else z3.SuffixOf(p, sx)); return
        if n == 'replace':
            if isinstance(a[0], str) and isinstance(a[1], str):
                f = self.uf('replace_all_%s_%s' % (a[0], a[1]), S, S)
                self.replaces = getattr(self, 'replaces', {}); self.replaces[f.name()] = (a[0], a[1])
                yield st, V.str(f(sx)); return
            yield st, V.str(self.uf('replace_all', S, S, S, S)(sx, self.strof(a[0]), self.strof(a[1]))); return
        if n == 'isdigit': yield st, V.bool(self.uf('isdigit', S, B)(sx)); return
        if n == 'count' : 
            t = self.uf('str_count', S, S, I)(sx, self.strof(a[0])); st.pc = st.pc + (t >= 0,); yield st, iv(t); return
        if n == 'find': yield st, iv(z3.IndexOf(sx, self.strof(a[0]), 0)); return
        if n == 'join':
            for s, m, arr in self.seqarg(st, args[0], fr):
                if isinstance(m, Exc): yield s, m; continue
                yield s, V.str(self.strjoin(s, sx, m, arr))
            return
        if n in ('split', 'rsplit'):
            s = st.clone()
            self.assumed.add('text.split yields a sequence of texts determined by the text and the separator')
            sep = self.to_v(a[0]) if a else NONE; mx = self.to_v(a[1]) if len(a) > 1 else iv(-1)
            nn = self.uf('%s_n' % n, S, V, V, I)(sx, sep, mx); arr = self.uf('%s_a' % n, S, V, V, AV)(sx, sep, mx)
            j = z3.Int('j!sp')
            s.pc = s.pc + (nn >= (1 if a else 0), z3.ForAll([j], V.is_str(z3.Select(arr, j)), patterns=[z3.Select(arr, j)]))
            if len(a) > 1: s.pc = s.pc + (z3.Implies(z3.And(V.is_int(mx), V.i(mx) >= 0), nn <= V.i(mx) + 1),)
            yield s, self.newlist_sym(s, nn, arr); return
        raise Unsupported('str.' + n)
    def strjoin(self, st, sep, m, arr):
        """sep.join: a function of the separator and the texts (concrete when the count is)"""
        if z3.is_int_value(m) and m.as_long() <= 6:
            parts = []
            for i in range(m.as_long()):
                if i: parts.append(sep)
                parts.append(V.s(z3.simplify(z3.Select(arr, z3.IntVal(i)))))
            if not parts: return z3.StringVal('')
            return z3.simplify(z3.Concat(parts)) if len(parts) > 1 else z3.simplify(parts[0])
        self.assumed.add('sep.join(texts) is a function of separator and texts')
        return self.uf('strjoin', S, I, AV, S)(sep, m, arr)
    def re_meth(self, st, o, n, args, kw, fr):
        h = self.ext.get('re.' + n)
        if h is None: raise Unsupported('regex.' + n)
        return h(self, st, o, args, kw)

def mentions(t, v):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.eq(v): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False
def haslambda(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return True
        todo.extend(x.children())
    return False
def selects(t, v):
    """the reads array[index] in t whose index mentions v"""
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.num_args() == 2 and mentions(x.arg(1), v) and x.arg(1).sort() == z3.IntSort(): out.append((x.arg(0), x.arg(1)))
        todo.extend(x.children())
    return out
class CollectNode(object):
    """stands for the implicit loop of list()/any()/dict.update() in loop matching"""
    _ = 'Collect'
    def __init__(self, src, ref): self.src, self.ref = src, ref; self.lineno = 0
def N_COLLECT(src, ref): return CollectNode(src, ref)
