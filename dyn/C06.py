# executable contracts for C06: list-style mutations against a plain Python list
import copy
import gen
from flatland import String, Integer, List, Array, Dict, MultiValue, SparseDict
from flatland.schema.base import Element, Slot
from flatland.schema.containers import ListSlot

def scalars(kind):
    if kind == 'S': return String, [u'a', u'b', u'c', u'dd', u'', None], lambda v: None if v is None else v
    if kind == 'I': return Integer, [0, 1, 2, 3, u'4', u'bad', None], lambda v: None if v is None or v == u'bad' else int(v)
    if kind == 'D':
        D = Dict.of(String.named(u's'), Integer.named(u'i'))
        def adapt(v):
            return {u's': v.get(u's'), u'i': v.get(u'i')}
        return D, [{u's': u'q'}, {u's': u'r', u'i': 3}, {u'i': 1}, {}], adapt
    if kind == 'L':
        return List.of(String), [[u'a'], [], [u'a', u'b']], lambda v: list(v)

def invariant(H, seq, model):
    """the representation invariant and agreement with the model (a list of plain values)"""
    n = len(model)
    raw = [list.__getitem__(seq, i) for i in range(list.__len__(seq))]
    if not H.check(len(raw) == n and len(seq) == n, 'length', 'got %d expected %d' % (len(raw), n)): return
    islist = isinstance(seq, List)
    mem = []
    for i, x in enumerate(raw):
        if islist:
            H.check(isinstance(x, ListSlot), 'a list holds only slots', x)
            if not isinstance(x, ListSlot): return
            H.check(x.name == u'%d' % i, 'slot %d is numbered %r' % (i, x.name))
            H.check(x.parent is seq, 'slot parent is the list', x.parent)
            m = x.element
            H.check(m.parent is x, "a member's parent is its slot", m.parent)
        else:
            m = x; H.check(m.parent is seq, "a member's parent is the sequence", m.parent)
        H.check(isinstance(m, seq.member_schema), 'holds only elements of the member schema', m)
        H.check(m.root is seq, 'parent chain leads back to the sequence')
        mem.append(m)
    H.eq([m.value for m in mem], model, 'members in the order a plain list would hold them')
    ident = lambda xs: [id(x) for x in xs]
    H.eq(ident(iter(seq)), ident(mem), 'iteration returns the members')
    H.eq(ident(seq.children), ident(mem), 'children returns the members')
    H.eq(ident(seq[i] for i in range(n)), ident(mem), 'indexing returns the members')
    H.eq(ident(seq[-i - 1] for i in range(n)), ident(mem[::-1]), 'negative indexing')
    for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(0, 2), slice(-2, None), slice(5, 1), slice(1, 4, 2)):
        H.eq(ident(seq[sl]), ident(mem[sl]), 'slicing %r' % (sl,))
    H.eq(ident(seq[1:]), ident(mem[1:]), 'slice [1:]'); H.eq(ident(seq[:2]), ident(mem[:2]), 'slice [:2]'); H.eq(ident(seq[-2:]), ident(mem[-2:]), 'slice [-2:]')
    for bad in (n, -n - 1): H.raises(IndexError, 'index out of range', lambda: seq[bad])
    if not isinstance(seq, MultiValue): H.eq(seq.value, model, 'value')
    if islist and seq.name is None:
        nm = None
    if islist:
        for i, m in enumerate(mem):
            want = u'_'.join(x for x in (seq.name, u'%d' % i, m.name) if x is not None)
            H.eq(m.flattened_name(), want, 'numbering in flattened names')
    for m in mem[:3]:
        i = [k for k, x in enumerate(mem) if x == m][0]
        H.eq(H.call(seq.index, m), ('ok', i), 'index of a member')
        H.eq(H.call(seq.count, m), ('ok', len([x for x in mem if x == m])), 'count of a member')
        H.check(m in seq, 'contains a member')

def ops(H, seq, model, kind, schema, pool, adapt):
    """apply one random operation to both; returns its description"""
    rng = H.rng
    v = lambda: copy.deepcopy(rng.choice(pool))
    n = len(model)
    def elem(x): return schema(x)
    def maybe(x): return elem(x) if rng.random() < .35 else x
    def mv(x): return adapt(x)
    op = rng.choice(['append', 'append', 'extend', 'insert', 'insert', 'setitem', 'setitem', 'setslice', 'setslice', 'setxslice', 'del', 'delslice', 'delxslice', 'pop', 'pop0', 'popi', 'remove',
                     'sort', 'reverse', 'iadd', 'set', 'set_default', 'index', 'count', 'contains', 'set', 'setbad', 'badindex'])
    if op == 'append':
        x = v(); H.case(op, x, kind); e = maybe(x); r = H.call(seq.append, e); model.append(mv(x))
        H.check(r == ('ok', None), 'append', r)
        if isinstance(e, Element): H.check(seq[-1] is e, 'the appended element itself becomes the member')
    elif op in ('extend', 'iadd'):
        xs = [v() for _ in range(rng.randrange(4))]; H.case(op, xs)
        arg = [maybe(x) for x in xs]
        if rng.random() < .3: arg = iter(arg)
        if op == 'extend': H.check(H.call(seq.extend, arg)[0] == 'ok', 'extend')
        else:
            s0 = seq; seq += arg; H.check(seq is s0, 'in-place addition keeps the sequence')
        model.extend(mv(x) for x in xs)
    elif op == 'insert':
        i = rng.randrange(-n - 2, n + 3); x = v(); H.case(op, i, x); e = maybe(x); r = H.call(seq.insert, i, e); model.insert(i, mv(x)); H.check(r == ('ok', None), 'insert', r)
        if isinstance(e, Element): H.check(any(y is e for y in seq), 'the inserted element itself becomes a member')
    elif op == 'setitem':
        if not n: return
        i = rng.randrange(-n, n); x = v(); H.case(op, i, x); e = maybe(x); r = H.call(seq.__setitem__, i, e); model[i] = mv(x); H.check(r[0] == 'ok', 'item assignment', r)
        if isinstance(e, Element): H.check(seq[i] is e, 'the assigned element itself becomes the member')
    elif op == 'setslice':
        i, j = rng.randrange(-n - 1, n + 2), rng.randrange(-n - 1, n + 2); xs = [v() for _ in range(rng.randrange(4))]; H.case(op, i, j, xs)
        if rng.random() < .3: i = None
        if rng.random() < .3: j = None
        arg = [maybe(x) for x in xs]
        if i is None and j is None: seq[:] = arg
        elif i is None: seq[:j] = arg
        elif j is None: seq[i:] = arg
        else: seq[i:j] = arg
        model[i:j] = [mv(x) for x in xs]
    elif op == 'setxslice':
        st = rng.choice([2, -1, 3, -2]); sl = slice(rng.choice([None, 0, 1, -1]), rng.choice([None, n, -1]), st)
        idx = range(*sl.indices(n)); xs = [v() for _ in idx]; H.case(op, (sl.start, sl.stop, sl.step), xs)
        seq[sl] = [maybe(x) for x in xs]; model[sl] = [mv(x) for x in xs]
    elif op == 'del':
        if not n: return
        i = rng.randrange(-n, n); H.case(op, i); del seq[i]; del model[i]
    elif op == 'delslice':
        i, j = rng.randrange(-n - 1, n + 2), rng.randrange(-n - 1, n + 2); H.case(op, i, j)
        if not isinstance(seq, List): i, j = max(i, -n), max(j, -n)   # Jython's own list subclasses misread bounds below -n; arrays inherit that
        del seq[i:j]; del model[i:j]
    elif op == 'delxslice':
        sl = slice(None, None, rng.choice([2, -1, 3])); H.case(op, sl.step); del seq[sl]; del model[sl]
    elif op in ('pop', 'pop0', 'popi'):
        a = [] if op == 'pop' else [0] if op == 'pop0' else [rng.randrange(-n - 1, n + 1)]
        H.case(op, a)
        if not n or (a and not -n <= a[0] < n): H.raises(IndexError, 'pop out of range', seq.pop, *a); return
        want = seq[a[0]] if a else seq[-1]
        r = H.call(seq.pop, *a); model.pop(*a)
        H.check(r[0] == 'ok' and r[1] is want, 'pop returns the removed member', r)
    elif op == 'remove':
        x = v(); H.case(op, x)
        if mv(x) in model and kind != 'I':
            H.check(H.call(seq.remove, maybe(x)) == ('ok', None), 'remove'); model.remove(mv(x))
        elif kind == 'S' or (kind == 'I' and x not in (u'bad', None)):
            if mv(x) in model: H.check(H.call(seq.remove, x) == ('ok', None), 'remove'); model.remove(mv(x))
            else: H.raises(ValueError, 'remove of a missing value', seq.remove, x)
    elif op == 'sort':
        if kind in ('D', 'L'): return
        rev = rng.random() < .5; H.case(op, rev)
        k = lambda e: (e.value is None, e.value)
        seq.sort(key=k, reverse=rev); model.sort(key=lambda y: (y is None, y), reverse=rev)
    elif op == 'reverse':
        H.case(op); seq.reverse(); model.reverse()
    elif op == 'set':
        xs = [v() for _ in range(rng.randrange(5))]; H.case(op, xs)
        good = all(not (kind == 'I' and x == u'bad') for x in xs)
        r = H.call(seq.set, rng.choice([list, tuple, iter])(xs)); model[:] = [mv(x) for x in xs]
        H.check(r == ('ok', good), 'set reports success of every conversion', r)
    elif op == 'setbad':
        H.case(op, kind); r = H.call(seq.set, rng.choice([None, 5])); H.check(r == ('ok', False), 'set to a non iterable fails', r); model[:] = []
    elif op == 'set_default':
        xs = [v() for _ in range(rng.randrange(3))]
        if isinstance(seq, List) and rng.random() < .4:
            k = rng.randrange(4); H.case(op, k); seq.default = k; seq.set_default(); model[:] = [schema().value] * k
        else:
            H.case(op, xs); seq.default = xs; seq.set_default(); model[:] = [mv(x) for x in xs]
    elif op == 'badindex':
        x = v(); H.case(op); H.raises(IndexError, 'assignment out of range', seq.__setitem__, n, x); H.raises(IndexError, 'deletion out of range', seq.__delitem__, n)
    elif op in ('index', 'count', 'contains'):
        if kind == 'I': pool = [0, 1, 2, 3, 9]
        x = copy.deepcopy(rng.choice(pool)); H.case(op, x)
        if kind in ('D', 'L'): x = elem(x); y = x.value
        else: y = mv(x)
        if kind == 'I' and u'bad' in [e.u for e in seq]: return
        if op == 'count': H.eq(H.call(seq.count, x), ('ok', model.count(y)), 'count')
        elif op == 'contains': H.check((x in seq) is (y in model), 'contains', (x, model))
        elif y in model: H.eq(H.call(seq.index, x), ('ok', model.index(y)), 'index')
        else: H.raises(ValueError, 'index of a missing value', seq.index, x)

def run(H):
    H.rule = 'random operation histories of up to 14 steps on lists and arrays of four member kinds, compared with a plain list after every step'
    for k in range(H.scale(2200, 40000)):
        if not H.more(): break
        kind = H.rng.choice('SSIIDL')
        T = H.rng.choice([List, List, Array, MultiValue]) if kind in 'SI' else List
        if kind in 'DL' and H.rng.random() < .2: T = Array
        H.group('%s of %s' % (T.__name__, kind))
        schema, pool, adapt = scalars(kind)
        if H.rng.random() < .3: schema = schema.named(u'm')
        C = T.named(H.rng.choice([None, u'l'])).of(schema)
        start = [copy.deepcopy(H.rng.choice(pool)) for _ in range(H.rng.randrange(5))]
        H.case('start', start)
        seq = C(); seq.set(start); model = [adapt(x) for x in start]
        invariant(H, seq, model)
        hist = []
        for step in range(H.rng.randrange(1, 15)):
            H.current = None
            ops(H, seq, model, kind, schema, pool, adapt)
            if H.current: hist.append(H.current[1:])
            H.current = (T.__name__, kind, start, 'history', hist)
            invariant(H, seq, model)
