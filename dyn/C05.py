# executable contracts for C05: parents, root, path, children, names, all_valid
import gen
from flatland import String, List, Dict, Array, SparseDict, Integer, Unevaluated
from flatland.schema.base import Element

class Node(Element):
    def __init__(self, name, parent=None):
        Element.__init__(self); self.name, self.parent, self.kidlist = name, parent, []
    @property
    def children(self): return iter(self.kidlist)

def bfs(root, kids):
    out, seen, q = [], set([id(root)]), list(kids(root))
    while q:
        x = q.pop(0)
        if id(x) in seen: continue
        seen.add(id(x)); out.append(x); q.extend(kids(x))
    return out

def same(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))

def check(H, e, kids, flags=True):
    anc = gen.ancestors(e)
    r = H.call(lambda: list(e.parents))
    H.check(r[0] == 'ok' and same(r[1], anc), 'parents from nearest to root', r)
    H.check(e.root is (anc[-1] if anc else e), 'root is the last ancestor (or the element)', e.root)
    H.check(same(list(e.path), anc[::-1] + [e]), 'path is the reversed ancestors followed by the element')
    r = H.call(lambda: list(e.all_children))
    H.check(r[0] == 'ok' and same(r[1], bfs(e, kids)), 'all_children: each proper descendant once, breadth first', 'got %s expected %s' % (r, bfs(e, kids)))
    for sep in (u'_', u'.', u'', u'::'):
        H.eq(H.call(e.flattened_name, sep), ('ok', sep.join(x.name for x in anc[::-1] + [e] if x.name is not None)), 'flattened_name')
    H.eq(e.flattened_name(), e.flattened_name(u'_'), 'default separator')

VALS = [True, False, 0, 1, Unevaluated, None]
def check_valid(H, e, kids, outside=()):
    fam = [e] + bfs(e, kids)
    for x in fam: x.valid = True
    H.check(e.all_valid is True, 'all_valid of an all-valid tree')
    for k in range(3):
        for x in fam: x.valid = H.rng.choice([True, 1, Unevaluated])
        if H.rng.random() < .7: H.rng.choice(fam).valid = H.rng.choice(VALS)
        H.check(e.all_valid is all(bool(x.valid) for x in fam), 'all_valid', (e.all_valid, [x.valid for x in fam]))
    for x in fam:
        for y in fam: y.valid = True
        x.valid = False
        H.check(e.all_valid is False, 'one invalid descendant makes all_valid false')
        if len(fam) > 40: break
    before = [(o, o.valid) for o in outside if not any(o is x for x in fam)]
    for v in (True, False):
        e.all_valid = v
        H.check(all(x.valid is v for x in fam), 'assigning all_valid marks the element and all descendants')
        H.check(e.all_valid is v, 'all_valid reads back')
    H.check(all(o.valid is v for o, v in before), 'assigning all_valid touches nothing else')

def run(H):
    H.rule = 'random trees of plain nodes (with sharing and cycles among children) and of schema-built elements, every element of each'
    H.group('plain nodes')
    kids = lambda x: x.kidlist
    for k in range(H.scale(2500, 40000)):
        if not H.more(): break
        n = H.rng.randrange(1, 12)
        ns = [Node(H.rng.choice([None, None, u'', u'a', u'b', u'c%d' % i])) for i in range(n)]
        for i in range(1, n):
            p = ns[H.rng.randrange(i)]; ns[i].parent = p; p.kidlist.insert(H.rng.randrange(len(p.kidlist) + 1), ns[i])
        if H.rng.random() < .3: ns[H.rng.randrange(n)].kidlist.append(ns[H.rng.randrange(n)])
        H.case([(x.name, x.parent and x.parent.name, [ns.index(c) if 0 else [i for i, y in enumerate(ns) if y is c][0] for c in x.kidlist]) for x in ns])
        for x in ns: check(H, x, kids)
        check_valid(H, H.rng.choice(ns), kids, ns)
    H.group('schema-built elements')
    for k in range(H.scale(1500, 20000)):
        if not H.more(): break
        el = gen.element(H.rng, H.rng.randrange(1, 5), H.rng.choice([None, u'top']))
        H.case(type(el).__name__, gen.describe(el))
        fam = [el] + bfs(el, gen.kids)
        for x in fam: check(H, x, gen.kids)
        for x in fam[1:]: H.check(x.root is el, 'every element leads back to the root')
        check_valid(H, H.rng.choice(fam), gen.kids, fam)
