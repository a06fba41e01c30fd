"""C05: parent chains, roots, paths, breadth-first enumeration, flattened names, all_valid."""
from common import *
B_ = 'flatland.schema.base'
A = lambda c, st, n: c.E.comp(st, n)

# ---- the ancestors of an element: anc[0] is the element, anc[h] the root
def chain(c, st):
    E = c.E
    c.me = c.obj(st, 'element')
    c.h = c.sym('height', I); c.anc = z3.Const('in_anc', AV)
    j = z3.Int('j!a'); par = E.comp(st, 'f.parent')
    c.assume(st, c.h >= 0); c.assume(st, c.anc[0] == c.me)
    c.assume(st, FA(j, z3.Implies(z3.And(0 <= j, j <= c.h), z3.And(V.is_obj(c.anc[j]), V.r(c.anc[j]) > 0,
        par[V.r(c.anc[j])] == z3.If(j == c.h, NONE, c.anc[j + 1]))), c.anc[j]))
def env_par(E, c): fields(E, 'parent')
def parents_iface(E, c):
    """callee contract of .parents (proved below): the proper ancestors, nearest first, in a fresh iterator"""
    def h(E, st, o):
        if not E.to_v(o).eq(c.me): raise Unsupported('parents of another element')
        j = z3.Int('j!p'); yield st, SeqVal(c.h, z3.Lambda([j], c.anc[j + 1]))
    E.iface['parents'] = h
def setup_p(c, st):
    chain(c, st); return [c.me]
def inv_p(L):
    c, st, E = L.c, L.st, L.E; j = z3.Int('j!v')
    n, a = E.llen(st, L.out), E.larr(st, L.out)
    return [('so far', z3.And(0 <= n, n <= c.h, L.var('element') == z3.If(n == c.h, NONE, c.anc[n + 1]))),
            ('collected', FA(j, z3.Implies(z3.And(0 <= j, j < n), a[j] == c.anc[j + 1]), a[j]))]
def seqpost(n, f, what):
    def post(c, st, res):
        if isexc(res): return [('no exception', False)]
        E = c.E; r = E.ref(res); j = z3.Int('j!v')
        return [(what + ': length', E.llen(st, r) == n(c)), (what, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n(c)), E.larr(st, r)[j] == f(c, j))))] + unchanged(c, st, 'f.parent')
    return post
def env_pp(E, c): fields(E, 'parent'); parents_iface(E, c)
def post_root(c, st, res):
    if isexc(res): return [('no exception', False)]
    return [('the root is the last ancestor, or the element', c.E.to_v(res) == c.anc[c.h])] + unchanged(c, st, 'f.parent')

# ---- flattened_name
def env_fn(E, c):
    frozen(E, 'name')
    def h(E, st, o):
        if not E.to_v(o).eq(c.me): raise Unsupported('path of another element')
        j = z3.Int('j!p'); yield st, SeqVal(c.h + 1, z3.Lambda([j], c.anc[c.h - j]))
    E.iface['path'] = h
    def join(E, st, o, args, kw):
        for s, m, arr in E.seqarg(st, args[0], None):
            if isinstance(m, Exc): yield s, m; continue
            s = s.clone(); E.setcomp(s, 'gn.jn', m, None); E.setcomp(s, 'tr.join.0', arr, None); E.setcomp(s, 'gn.joins', z3.simplify(E.comp(s, 'gn.joins') + 1), None)
            yield s, V.str(E.uf('strjoin', S, I, AV, S)(E.strof(o), m, arr))
    E.ext['str.join'] = join
def setup_fn(c, st):
    chain(c, st); E = c.E
    c.sep = c.sym('sep', S); nm = E.uf('attr_name', I, V); r = z3.Int('r!n')
    c.assume(st, FA(r, z3.Or(nm(r) == NONE, V.is_str(nm(r))), nm(r))); c.assume(st, E.comp(st, 'gn.joins') == 0)
    E.comp(st, 'gn.jn'); E.comp(st, 'tr.join.0')
    i = z3.Int('i!n')
    c.name = lambda k: nm(V.r(c.anc[c.h - k]))
    c.nn = z3.Function('named_before', I, I)      # number of path elements before position i that have a name
    c.assume(st, FA(i, z3.And(c.nn(i) >= 0, c.nn(i) == z3.If(i <= 0, 0, c.nn(i - 1) + z3.If(c.name(i - 1) == NONE, 0, 1))), c.nn(i)))
    return [c.me, V.str(c.sep)]
def filt(c, n, a, upto):
    k = z3.Int('k!f'); return [('count', n == c.nn(upto)), ('names', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto, c.name(k) != NONE), z3.And(c.nn(k) < n, a[c.nn(k)] == c.name(k)))))]
def inv_fn(L):
    c, st, E = L.c, L.st, L.E; k = z3.Int('k!f'); n, a = E.llen(st, L.out), E.larr(st, L.out)
    return [('bound', z3.And(0 <= L.i, L.i <= c.h + 1)), ('count', n == c.nn(L.i)), ('names', FA(k, z3.Implies(z3.And(0 <= k, k < L.i, c.name(k) != NONE), z3.And(0 <= c.nn(k), c.nn(k) < n, a[c.nn(k)] == c.name(k))), c.nn(k)))]
def post_fn(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; n, a = E.comp(st, 'gn.jn'), E.comp(st, 'tr.join.0')
    return [('one join', E.comp(st, 'gn.joins') == 1), ('of the separator and a list', E.to_v(res) == V.str(E.uf('strjoin', S, I, AV, S)(c.sep, n, a)))] + \
           [('the list holds the names that are not None, in path order: ' + nm, f) for nm, f in filt(c, n, a, c.h + 1)]
# ---- all_children
def env_ac(E, c):
    fields(E, 'valid')
    kn, ka = E.uf('nchildren', I, I), E.uf('children', I, AV)
    c.kn, c.ka = kn, ka
    def kids(E, st, o):
        st = st.clone(); r = E.ref(o); n, arr = kn(r), ka(r); j = z3.Int('j!k')
        st.pc = st.pc + (n >= 0, FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.is_obj(arr[j]), V.r(arr[j]) > 0)), arr[j]))
        m, old, new = cnt(E, st, 'enq'), E.comp(st, 'tr.enq.0'), E.fresh(AV, 'log')
        owold, ow = E.comp(st, 'tr.enq.1'), E.fresh(AV, 'own')
        rk = E.comp(st, 'gi.rank')[r]
        st.pc = st.pc + (FA(j, new[j] == z3.If(j < m, old[j], arr[j - m]), new[j]), FA(j, z3.Implies(j < m, new[j] == old[j]), old[j]),
                         FA(j, ow[j] == z3.If(j < m, owold[j], V.int(rk)), ow[j]), FA(j, z3.Implies(j < m, ow[j] == owold[j]), owold[j]))
        E.setcomp(st, 'tr.enq.0', new, None); E.setcomp(st, 'tr.enq.1', ow, None)
        E.setcomp(st, 'gn.enq', z3.simplify(m + n), None)
        E.setcomp(st, 'gi.ks', z3.Store(E.comp(st, 'gi.ks'), r, m), None)
        yield st, SeqVal(n, arr)
    E.iface['children'] = kids
    def onpop(E, st, o, args):
        st = st.clone(); E.setcomp(st, 'gn.pop', z3.simplify(E.comp(st, 'gn.pop') + 1), None); return st
    E.ext['on:list.popleft'] = onpop
    def ony(E, st, v):
        st = st.clone(); n = cnt(E, st, 'y')
        E.setcomp(st, 'gi.rank', z3.Store(E.comp(st, 'gi.rank'), E.ref(v), n), None)
        rec(E, st, 'y', v, V.int(E.comp(st, 'gn.pop') - 1)); return st
    E.ext['on:yield'] = ony
def setup_ac(c, st):
    E = c.E; c.me = c.obj(st, 'element')
    trace(c, st, 'y', 2); trace(c, st, 'enq', 2); c.assume(st, E.comp(st, 'gn.pop') == 0)
    r = z3.Int('r!s'); x = z3.Const('x!s', V); rank = E.comp(st, 'gi.rank'); E.comp(st, 'gi.ks')
    c.assume(st, FA(r, rank[r] == -1, rank[r]))
    pid, inv_ = E.uf('pyid', V, I), E.uf('pyid_inv', I, V)
    c.assume(st, FA(x, inv_(pid(x)) == x, pid(x)))
    return [c.me]
def inv_ac(L):
    c, st, E = L.c, L.st, L.E
    k, k2, p, j, r = z3.Ints('k!i k2!i p!i j!i r!i')
    D, PO, N = A(c, st, 'tr.y.0'), A(c, st, 'tr.y.1'), cnt(E, st, 'y')
    log, own, M = A(c, st, 'tr.enq.0'), A(c, st, 'tr.enq.1'), cnt(E, st, 'enq')
    rank, ks, pop = A(c, st, 'gi.rank'), A(c, st, 'gi.ks'), E.comp(st, 'gn.pop')
    q, seen, me = E.ref(L.var('queue')), E.ref(L.var('seen')), V.r(c.me)
    ql, qa, on, oa = E.llen(st, q), E.larr(st, q), E.llen(st, L.out), E.larr(st, L.out)
    pid = E.uf('pyid', V, I); kn, ka = c.kn, c.ka
    placed = lambda x: z3.And(0 <= ks[x], kn(x) >= 0, ks[x] + kn(x) <= M)
    return [('bounds', z3.And(0 <= N, N <= pop, pop <= M, rank[me] == -1, ks[me] == 0, kn(me) >= 0, kn(me) <= M)),
            ('queue', z3.And(ql == M - pop, FA(j, z3.Implies(z3.And(0 <= j, j < ql), qa[j] == log[pop + j])))),
            ('yielded', z3.And(on == N, FA(j, z3.Implies(z3.And(0 <= j, j < N), oa[j] == D[j]), oa[j]))),
            ('log', FA(p, z3.Implies(z3.And(0 <= p, p < M), z3.And(V.is_obj(log[p]), V.r(log[p]) > 0)), log[p])),
            ('distinct', FA(k, z3.Implies(z3.And(0 <= k, k < N), z3.And(V.is_obj(D[k]), V.r(D[k]) > 0, rank[V.r(D[k])] == k)), D[k])),
            ('rank', FA(r, z3.And(rank[r] >= -1, rank[r] < N, z3.Implies(rank[r] >= 0, z3.And(r > 0, D[rank[r]] == V.obj(r)))), rank[r])),
            ('positions', FA(k, z3.Implies(z3.And(0 <= k, k < N), z3.And(0 <= V.i(PO[k]), V.i(PO[k]) < pop, log[V.i(PO[k])] == D[k], V.i(own[V.i(PO[k])]) < k)), D[k], PO[k])),
            ('positions grow', FA([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < N), V.i(PO[k]) < V.i(PO[k2])), (PO[k], PO[k2]))),
            ('taken', FA(p, z3.Implies(z3.And(0 <= p, p < pop), z3.Or(log[p] == c.me, z3.And(rank[V.r(log[p])] >= 0, V.i(PO[rank[V.r(log[p])]]) <= p))), log[p])),
            ('placed', FA(k, z3.Implies(z3.And(0 <= k, k < N), placed(V.r(D[k]))), D[k])),
            ('content me', FA(j, z3.Implies(z3.And(0 <= j, j < kn(me)), z3.And(log[j] == ka(me)[j], own[j] == V.int(-1))), ka(me)[j])),
            ('content', FA([k, j], z3.Implies(z3.And(0 <= k, k < N, 0 <= j, j < kn(V.r(D[k]))), z3.And(log[ks[V.r(D[k])] + j] == ka(V.r(D[k]))[j])), ka(V.r(D[k]))[j])),
            ('order', FA([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < N), ks[V.r(D[k])] + kn(V.r(D[k])) <= ks[V.r(D[k2])]), (D[k], D[k2]))),
            ('order me', FA(k, z3.Implies(z3.And(0 <= k, k < N), kn(me) <= ks[V.r(D[k])]), D[k])),
            ('owners', FA(p, z3.Implies(z3.And(0 <= p, p < M), z3.And(V.is_int(own[p]), -1 <= V.i(own[p]), V.i(own[p]) < N,
                 z3.If(V.i(own[p]) < 0, p < kn(me), z3.And(ks[V.r(D[V.i(own[p])])] <= p, p < ks[V.r(D[V.i(own[p])])] + kn(V.r(D[V.i(own[p])])))))), own[p])),
            ('seen', FA(r, z3.Implies(r > 0, z3.Select(E.dom(st, seen), V.int(pid(V.obj(r)))) == z3.Or(rank[r] >= 0, r == me)), pid(V.obj(r))))]
def post_ac(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; R = E.ref(res); N, D = E.llen(st, R), E.larr(st, R)
    k, k2, p, j, p1, j1 = z3.Ints('k!q k2!q p!q j!q p1!q j1!q')
    K = lambda i: z3.If(i < 0, V.r(c.me), V.r(D[i]))
    child = lambda i, x: c.ka(K(i))[x]
    cell = lambda i, x: z3.And(-1 <= i, i < N, 0 <= x, x < c.kn(K(i)))
    ks, own, PO = A(c, st, 'gi.ks'), A(c, st, 'tr.enq.1'), A(c, st, 'tr.y.1')
    W = lambda k: (V.i(own[V.i(PO[k])]), V.i(PO[k]) - z3.If(V.i(own[V.i(PO[k])]) < 0, 0, ks[V.r(D[V.i(own[V.i(PO[k])])])]))   # where it was found
    return [('elements, never the element itself', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(V.is_obj(D[k]), D[k] != c.me)))),
            ('each once', z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < N), D[k] != D[k2]))),
            ('every child of the element or of an enumerated element is enumerated', z3.ForAll([p, j], z3.Implies(z3.And(cell(p, j), child(p, j) != c.me), z3.Exists([k], z3.And(0 <= k, k < N, D[k] == child(p, j)))))),
            ('only descendants, parents first', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), exw([p, j], z3.And(cell(p, j), p < k, child(p, j) == D[k]), W(k))))),
            ('breadth first', z3.ForAll([k, k2, p, j], z3.Implies(z3.And(0 <= k, k < k2, k2 < N, cell(p, j), child(p, j) == D[k2]),
                 exw([p1, j1], z3.And(cell(p1, j1), child(p1, j1) == D[k], z3.Or(p1 < p, z3.And(p1 == p, j1 < j))), W(k)))))] + unchanged(c, st, 'f.valid')
# ---- all_valid
def env_av(E, c):
    fields(E, 'valid')
    c.kn, c.ka = E.uf('ndesc', I, I), E.uf('desc', I, AV)
    def kids(E, st, o):
        r = E.ref(o); n, arr = c.kn(r), c.ka(r); j = z3.Int('j!k')
        st = st.clone(); st.pc = st.pc + (n >= 0, FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(V.is_obj(arr[j]), V.r(arr[j]) > 0)), arr[j]))
        yield st, SeqVal(n, arr)
    E.iface['all_children'] = kids
def setup_av(c, st):
    c.me = c.obj(st, 'element'); c.E.comp(st, 'f.valid'); c.v = c.sym('v'); return [c.me]
def tv(c, st, r): return T(c.E, st, A(c, st, 'f.valid')[r])
def inv_av(L):
    c, st = L.c, L.st; k = z3.Int('k!i'); me = V.r(c.me); a = c.ka(me)
    return [('all so far', z3.And(L.i <= c.kn(me), tv(c, st, me), FA(k, z3.Implies(z3.And(0 <= k, k < L.i), tv(c, st, V.r(a[k]))), a[k])))]
def post_av(c, st, res):
    if isexc(res): return [('no exception', False)]
    k = z3.Int('k!i'); me = V.r(c.me); a = c.ka(me)
    return [('true exactly when the element and every descendant is valid', c.E.to_v(res) == V.bool(z3.And(tv(c, st, me), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c.kn(me)), tv(c, st, V.r(a[k])))))))] + unchanged(c, st, 'f.valid')
def inv_sv(L):
    c, st, E = L.c, L.st, L.E; k, r = z3.Ints('k!i r!i'); me = V.r(c.me); a = c.ka(me)
    vf, v0 = A(c, st, 'f.valid'), A(c, c.st0, 'f.valid')
    return [('marked', z3.And(L.i <= c.kn(me), vf[me] == c.v, FA(k, z3.Implies(z3.And(0 <= k, k < L.i), vf[V.r(a[k])] == c.v), a[k]))),
            ('others', FA(r, z3.Or(vf[r] == v0[r], r == me, z3.And(vf[r] == c.v, z3.Exists([k], z3.And(0 <= k, k < L.i, a[k] == V.obj(r))))), vf[r]))]
def post_sv(c, st, res):
    if isexc(res): return [('no exception', False)]
    k, r = z3.Ints('k!i r!i'); me = V.r(c.me); a = c.ka(me)
    vf, v0 = A(c, st, 'f.valid'), A(c, c.st0, 'f.valid')
    return [('all are marked', z3.And(vf[me] == c.v, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c.kn(me)), vf[V.r(a[k])] == c.v)))),
            ('nothing else', z3.ForAll([r], z3.Or(vf[r] == v0[r], r == me, z3.Exists([k], z3.And(0 <= k, k < c.kn(me), a[k] == V.obj(r))))))]
def contracts(P):
    return [
        Contract('Element.parents', B_ + ':Element.parents', setup_p, seqpost(lambda c: c.h, lambda c, j: c.anc[j + 1], 'the ancestors from nearest to root'),
                 env=env_par, collect=True, loops=[LoopSpec('up', inv_p, kind='While')], doc='yields exactly the proper ancestors, nearest first, for every finite chain'),
        Contract('Element.root', B_ + ':Element.root', setup_p, post_root, env=env_pp, doc='last ancestor, or the element itself when it has no parent'),
        Contract('Element.path', B_ + ':Element.path', setup_p, seqpost(lambda c: c.h + 1, lambda c, j: c.anc[c.h - j], 'root to element'), env=env_pp, collect=True,
                 doc='the ancestors reversed, then the element'),
        Contract('Element.flattened_name', B_ + ':Element.flattened_name', setup_fn, post_fn, env=env_fn, loops=[LoopSpec('names', inv_fn, kind='Collect')],
                 doc='sep.join of exactly the names along the path that are not None, in order'),
        Contract('Element.all_children', B_ + ':Element.all_children', setup_ac, post_ac, env=env_ac, collect=True, loops=[LoopSpec('bfs', inv_ac, kind='While')],
                 doc='each proper descendant exactly once, in breadth-first order, never the element itself'),
        Contract('Element.all_valid', B_ + ':Element.all_valid', setup_av, post_av, env=env_av, loops=[LoopSpec('each', inv_av, kind='For')], doc='true exactly when all flags are true'),
        Contract('Element.all_valid (assignment)', B_ + ':Element.all_valid/fset', lambda c, st: setup_av(c, st) + [c.v], post_sv, env=env_av, loops=[LoopSpec('each', inv_sv, kind='For')], doc='marks the element and all descendants and nothing else'),
    ]
ASSUMPTIONS = ['the parent chain of an element is finite (no element is its own ancestor)', 'children of an element do not change during an enumeration',
               'termination of the enumeration is not proved (the tree is finite)']
