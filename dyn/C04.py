# executable contracts for C04: traversal order of validate
import gen
from flatland import String, List, Dict, Skip, SkipAll, SkipAllFalse, Unevaluated, Boolean, Integer
from flatland.schema.base import Element, Slot
RES = [True, True, True, True, False, None, 0, 1, Skip, SkipAll, SkipAllFalse]

class Node(Element):
    """an element with given children and given results for each pass (Unevaluated = not judged)"""
    def __init__(self, name, down, up):
        Element.__init__(self); self.name, self.down, self.up, self.kidlist = name, down, up, []
    @property
    def children(self): return iter(self.kidlist)
    def _validate(self, state, descending):
        LOG.append((self.name, descending, state))
        return self.down if descending else self.up
LOG = []

def spec(root, log):
    """(visit order, verdict, marks)"""
    order, seen, q = [], set(), [root]
    ok = True; marks = {}
    while q:
        x = q.pop(0)
        if id(x) in seen: continue
        seen.add(id(x)); order.append(x); log.append((x.name, True))
        d = x.down
        if d is Unevaluated: marks[id(x)] = Unevaluated
        else:
            marks[id(x)] = bool(d); ok = ok and bool(d)
        if d is SkipAll or d is SkipAllFalse: continue
        q.extend(x.kidlist)
    for x in reversed(order):
        log.append((x.name, False))
        if x.up is Unevaluated: continue
        if marks[id(x)]:
            marks[id(x)] = bool(x.up)
            ok = ok and bool(x.up)
    return order, ok, marks

def nodes(H, n, share):
    RR = [True, True, False, 0, 1, Skip, SkipAll, SkipAllFalse, Unevaluated, Unevaluated]
    if H.rng.random() < .4: RR = [True, 1, Skip, Unevaluated, SkipAll]      # mostly valid trees
    ns = [Node(i, H.rng.choice(RR), H.rng.choice(RR)) for i in range(n)]
    for i in range(1, n):
        p = ns[H.rng.randrange(i)] if H.rng.random() < .7 else ns[max(0, i - 1)]
        p.kidlist.insert(H.rng.randrange(len(p.kidlist) + 1), ns[i])
    if share:
        for _ in range(H.rng.randrange(1, 4)): ns[H.rng.randrange(n)].kidlist.append(ns[H.rng.randrange(n)])
    return ns

def shape(x, seen=()):
    if x.name in seen: return ('again', x.name)
    return (x.name, repr(x.down), repr(x.up), [shape(k, seen + (x.name,)) for k in x.kidlist])

def flat_shape(ns): return [(x.name, repr(x.down), repr(x.up), [k.name for k in x.kidlist]) for x in ns]

def check(H, ns, recurse=True):
    root = ns[0]
    del LOG[:]
    before = object()
    for x in ns: x.valid = before
    H.case(flat_shape(ns), recurse)
    st = object()
    out = H.call(root.validate, st, recurse)
    if not H.check(out[0] == 'ok', 'validate raised', out): return
    H.check(all(l[2] is st for l in LOG), 'state handed to each element')
    got = [l[:2] for l in LOG]
    if recurse:
        want = []
        order, ok, marks = spec(root, want)
        H.eq(got, want, 'order of judgements (element, descending)')
        H.check(out[1] is ok, 'aggregate verdict', 'got %r expected %r' % (out[1], ok))
    else:
        want = [(root.name, True), (root.name, False)]
        H.eq(got, want, 'without recursion: only the element, down then up')
        m = root.down if root.down is Unevaluated else bool(root.down)
        if root.up is not Unevaluated: m = bool(root.up)
        marks = {id(root): m}
        H.check(bool(out[1]) is bool(m), 'verdict without recursion', out)
    for x in ns:
        if id(x) in marks: H.check(x.valid is marks[id(x)], 'mark of element %s' % x.name, 'got %r expected %r' % (x.valid, marks[id(x)]))
        else: H.check(x.valid is before, 'element %s was not to be judged but is marked %r' % (x.name, x.valid))

def real(H):
    """schema-built trees with logging validators"""
    rng = H.rng
    el = gen.element(rng, 3)
    order = gen.bfs(el)
    log, plan = [], {}
    pool = rng.choice([RES, [True, True, True, Skip, 1]])
    names = {}
    def validator(tag):
        def v(e, state):
            k = (names[id(e)], tag); log.append(k + (state,)); return plan[k]
        return v
    dn, up = validator(True), validator(False)
    for i, e in enumerate(order):
        names[id(e)] = i
        plan[(i, True)] = rng.choice(pool); plan[(i, False)] = rng.choice(pool)
        if isinstance(e, (list, dict)) and not isinstance(e, gen.JoinedString) and not isinstance(e, gen.MultiValue):
            e.validators = [up] if rng.random() < .7 else []
            e.descent_validators = [dn] if rng.random() < .5 else []
        elif isinstance(e, gen.MultiValue):
            e.validators = [up] if rng.random() < .7 else []; e.descent_validators = []
        else: e.validators = [dn] if rng.random() < .8 else []
        if rng.random() < .3: e.optional = True
        e.valid = 'old'
    # expected
    def judge(e, down):
        """(called?, result) following C03 for a single validator"""
        cont = isinstance(e, (list, dict))
        if cont: vs = e.descent_validators if down else e.validators
        else: vs = e.validators if down else None
        if vs is None: return False, Unevaluated
        if cont and down and not vs: return False, Unevaluated
        if e.is_empty and e.optional: return False, True
        if not vs: return False, not e.is_empty
        r = plan[(names[id(e)], down)]
        return True, (False if r is None else True if r is Skip else r if (r is SkipAll or not r) else True)
    want, ok, marks, visited, q = [], True, {}, [], [el]
    while q:
        e = q.pop(0)
        visited.append(e)
        called, r = judge(e, True)
        if called: want.append((names[id(e)], True, 'S'))
        marks[id(e)] = r if r is Unevaluated else bool(r)
        ok = ok and bool(r)
        if r is SkipAll or r is SkipAllFalse: continue
        q.extend(gen.kids(e))
    for e in reversed(visited):
        called, r = judge(e, False)
        if called: want.append((names[id(e)], False, 'S'))
        if r is Unevaluated: continue
        if marks[id(e)]:
            marks[id(e)] = bool(r); ok = ok and bool(r)
    H.case(type(el).__name__, gen.describe(el), sorted((k, repr(v)) for k, v in plan.items()), [bool(e.optional) for e in order])
    out = H.call(el.validate, 'S')
    H.check(out == ('ok', ok), 'aggregate verdict of a schema-built tree', (out, ok))
    H.eq(log, want, 'order of validator calls')
    for e in order:
        w = marks.get(id(e), 'old')
        H.check(e.valid is w or e.valid == w and type(e.valid) is type(w), 'mark of an element', '%r expected %r' % (e.valid, w))

def run(H):
    H.rule = 'random trees (with shared children and cycles) of up to 14 nodes with arbitrary results per pass; schema-built trees with logging validators'
    H.group('every two-node tree')
    for d0 in RES + [Unevaluated]:
        for u0 in RES + [Unevaluated]:
            for d1 in RES + [Unevaluated]:
                for u1 in RES + [Unevaluated]:
                    if H.quick and H.rng.random() < .6: continue
                    if None in (d0, u0, d1, u1): continue
                    a, b = Node(0, d0, u0), Node(1, d1, u1); a.kidlist = [b]
                    check(H, [a, b]); 
                    if H.rng.random() < .2: check(H, [a, b], False)
    H.group('random trees')
    for k in range(H.scale(4000, 60000)):
        if not H.more(): break
        check(H, nodes(H, H.rng.randrange(1, 15), H.rng.random() < .3), H.rng.random() < .9)
    H.group('schema-built trees')
    for k in range(H.scale(1200, 20000)):
        if not H.more(): break
        real(H)
    H.group('wide and deep')
    for n in (200, 600):
        ns = [Node(i, True, True) for i in range(n)]
        for i in range(1, n): ns[i // 2 if n == 200 else i - 1].kidlist.append(ns[i])
        check(H, ns)
