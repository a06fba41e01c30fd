"""C04: Element.validate visits the tree breadth first, then in reverse, and sets every .valid flag."""
from common import *
B_ = 'flatland.schema.base'

def named(E, nm):
    d = E.P.globals[B_][nm]
    return E.to_v(E.from_desc(None, d))
def env(E, c):
    fields(E, 'valid')
    def onpop(E, st, o, args):
        st = st.clone(); E.setcomp(st, 'gn.pop', z3.simplify(E.comp(st, 'gn.pop') + 1), None); return st
    E.ext['on:list.popleft'] = onpop
    def val(E, st, o, args, kw):
        st = st.clone()
        d = E.from_v(args[1] if len(args) > 1 else kw['descending'])
        if not isinstance(d, bool): raise Unsupported('_validate with a computed direction')
        r = E.fresh(V, 'verdict')
        c.verdict(st, r)
        if d:
            n = cnt(E, st, 'down')
            rec(E, st, 'down', o, args[0], r, V.int(E.comp(st, 'gn.pop') - 1), V.int(cnt(E, st, 'up')))
            E.setcomp(st, 'gi.rank', z3.Store(E.comp(st, 'gi.rank'), E.ref(o), n), None)
            E.setcomp(st, 'gn.bad', z3.simplify(z3.If(ok(c, st, r), E.comp(st, 'gn.bad'), n)), None)
        else:
            n, W = cnt(E, st, 'up'), A(c, st, 'tr.down.2')
            E.setcomp(st, 'gn.badu', z3.simplify(z3.If(upok(c, st, W[cnt(E, st, 'down') - 1 - n], r), E.comp(st, 'gn.badu'), n)), None)
            rec(E, st, 'up', o, args[0], r)
        yield st, r
    E.icall['_validate'] = val
    def kids(E, st, o):
        """children of an element: any sequence of elements (also differing from read to read)"""
        st = st.clone(); n, arr = E.fresh(I, 'nkids'), E.fresh(AV, 'kids'); j = z3.Int('j!k')
        st.pc = st.pc + (n >= 0, FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(V.is_obj(arr[j]), V.r(arr[j]) > 0)), z3.Select(arr, j)))
        m, old, new = cnt(E, st, 'enq'), E.comp(st, 'tr.enq.0'), E.fresh(AV, 'log')
        st.pc = st.pc + (FA([j], new[j] == z3.If(j < m, old[j], arr[j - m]), z3.Select(new, j)),
                         FA([j], z3.Implies(j < m, new[j] == old[j]), z3.Select(old, j)))
        E.setcomp(st, 'tr.enq.0', new, None); E.setcomp(st, 'gn.enq', z3.simplify(m + n), None)
        r = E.ref(o)
        E.setcomp(st, 'gi.kstart', z3.Store(E.comp(st, 'gi.kstart'), r, m), None)
        E.setcomp(st, 'gi.kread', z3.Store(E.comp(st, 'gi.kread'), r, z3.Select(E.comp(st, 'gi.kread'), r) + 1), None)
        yield st, SeqVal(n, arr)
    E.iface['children'] = kids
def setup(c, st, recurse=True):
    E = c.E
    c.me = c.obj(st, 'element'); c.state = c.sym('state')
    for nm, k in (('down', 5), ('up', 3)): trace(c, st, nm, k)
    for g, v in (('gn.pop', 0), ('gn.bad', -1), ('gn.badu', -1)): c.assume(st, E.comp(st, g) == v)
    c.assume(st, cnt(E, st, 'enq') == 1); c.assume(st, col(E, st, 'enq', 0, 0) == c.me)
    r = z3.Int('r!s'); x = z3.Const('x!s', V)
    c.assume(st, z3.And(FA([r], z3.And(E.comp(st, 'gi.rank')[r] == -1, E.comp(st, 'gi.kread')[r] == 0), E.comp(st, 'gi.rank')[r])))
    pid, inv_ = E.uf('pyid', V, I), E.uf('pyid_inv', I, V)
    c.assume(st, FA([x], inv_(pid(x)) == x, pid(x)))
    E.comp(st, 'f.valid'); E.comp(st, 'gi.kstart')
    c.UNE, c.SKA, c.SKF = named(E, 'Unevaluated'), named(E, 'SkipAll'), named(E, 'SkipAllFalse')
    others = [named(E, n) for n in ('Skip',)]
    c.verdict = lambda st, r: c.assume(st, z3.Or([V.is_bool(r), r == V.int(z3.IntVal(0)), r == c.UNE, r == c.SKA, r == c.SKF] + [r == o for o in others]))
    return ([c.me, c.state], {'recurse': recurse})
def vdown(c, st, d): return z3.If(d == c.UNE, d, V.bool(T(c.E, st, d)))
def ok(c, st, d): return z3.Or(d == c.UNE, T(c.E, st, d))
def vfinal(c, st, d, u): return z3.If(z3.And(u != c.UNE, T(c.E, st, vdown(c, st, d))), V.bool(T(c.E, st, u)), vdown(c, st, d))
def upok(c, st, d, u): return z3.Or(u == c.UNE, z3.Not(T(c.E, st, vdown(c, st, d))), T(c.E, st, u))
def bad(c, st, N):
    k = c.E.comp(st, 'gn.bad'); return z3.And(0 <= k, k < N, z3.Not(ok(c, st, A(c, st, 'tr.down.2')[k])))
def badu(c, st, n, N):
    k = c.E.comp(st, 'gn.badu'); return z3.And(0 <= k, k < n, z3.Not(upok(c, st, A(c, st, 'tr.down.2')[N - 1 - k], A(c, st, 'tr.up.2')[k])))
def skip(c, d): return z3.Or(d == c.SKA, d == c.SKF)
def A(c, st, n): return c.E.comp(st, n)
def tree(c, st):
    """facts about the downward pass alone"""
    E = c.E; k, k2, p, r = z3.Ints('k!t k2!t p!t r!t')
    N, M = cnt(E, st, 'down'), cnt(E, st, 'enq')
    D, S, W, PO = (A(c, st, 'tr.down.%d' % i) for i in range(4))
    rank, log, ks, kr = A(c, st, 'gi.rank'), A(c, st, 'tr.enq.0'), A(c, st, 'gi.kstart'), A(c, st, 'gi.kread')
    return [('visited once each, with the state', FA([k], z3.Implies(z3.And(0 <= k, k < N),
                 z3.And(V.is_obj(D[k]), V.r(D[k]) > 0, rank[V.r(D[k])] == k, S[k] == c.state)), z3.Select(D, k))),
            ('starts with the element itself', z3.Implies(N > 0, D[0] == c.me)),
            ('the down pass is over before the up pass starts', FA([k], z3.Implies(z3.And(0 <= k, k < N), A(c, st, 'tr.down.4')[k] == V.int(0)), z3.Select(D, k))),
            ('children are taken exactly from the elements that did not skip', FA([k], z3.Implies(z3.And(0 <= k, k < N),
                 kr[V.r(D[k])] == z3.If(skip(c, W[k]), 0, 1)), z3.Select(D, k))),
            ('and in visiting order', FA([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < N, z3.Not(skip(c, W[k])), z3.Not(skip(c, W[k2]))),
                 ks[V.r(D[k])] <= ks[V.r(D[k2])]), (z3.Select(D, k), z3.Select(D, k2)))),
            ('nothing else is visited', FA([r], z3.And(rank[r] >= -1, rank[r] < N, z3.Implies(rank[r] >= 0, z3.And(r > 0, D[rank[r]] == V.obj(r))), z3.Implies(rank[r] < 0, kr[r] == 0)), rank[r]))]
def inv1(L):
    c, st, E = L.c, L.st, L.E
    k, k2, p, r, j = z3.Ints('k!i k2!i p!i r!i j!i')
    N, M, pop = cnt(E, st, 'down'), cnt(E, st, 'enq'), E.comp(st, 'gn.pop')
    D, S, W, PO = (A(c, st, 'tr.down.%d' % i) for i in range(4))
    rank, log, ks = A(c, st, 'gi.rank'), A(c, st, 'tr.enq.0'), A(c, st, 'gi.kstart')
    q, el, seen, valid = (E.ref(L.var(n)) if n != 'valid' else L.var(n) for n in ('queue', 'elements', 'seen', 'valid'))
    ql, qa, eln, ela = E.llen(st, q), E.larr(st, q), E.llen(st, el), E.larr(st, el)
    vf, vf0 = A(c, st, 'f.valid'), A(c, c.st0, 'f.valid')
    pid = E.uf('pyid', V, I)
    return tree(c, st) + [
        ('bounds', z3.And(0 <= N, N <= pop, 0 <= pop, pop <= M, M >= 1, cnt(E, st, 'up') == 0, z3.Implies(pop > 0, N > 0), z3.Implies(pop == 0, N == 0), log[0] == c.me)),
        ('queue', z3.And(ql == M - pop, FA([j], z3.Implies(z3.And(0 <= j, j < ql), qa[j] == log[pop + j])))),
        ('log', FA([p], z3.Implies(z3.And(0 <= p, p < M), z3.And(V.is_obj(log[p]), V.r(log[p]) > 0)), z3.Select(log, p))),
        ('elements', z3.And(eln == N, FA([j], z3.Implies(z3.And(0 <= j, j < N), ela[j] == D[j]), z3.Select(ela, j)))),
        ('positions', FA([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(0 <= V.i(PO[k]), V.i(PO[k]) < pop, log[V.i(PO[k])] == D[k], z3.Implies(z3.Not(skip(c, W[k])), ks[V.r(D[k])] <= M))), z3.Select(D, k), z3.Select(PO, k))),
        ('positions grow', FA([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < N), V.i(PO[k]) < V.i(PO[k2])), (z3.Select(PO, k), z3.Select(PO, k2)))),
        ('taken positions', FA([p], z3.Implies(z3.And(0 <= p, p < pop), z3.And(rank[V.r(log[p])] >= 0, V.i(PO[rank[V.r(log[p])]]) <= p)), z3.Select(log, p))),
        ('seen', FA([r], z3.Implies(r > 0, z3.Select(E.dom(st, seen), V.int(pid(V.obj(r)))) == (rank[r] >= 0)), pid(V.obj(r)))),
        ('flags', FA([r], vf[r] == z3.If(rank[r] >= 0, vdown(c, st, W[rank[r]]), vf0[r]), vf[r])),
        ('valid', z3.And(z3.Or(V.is_bool(valid), valid == V.int(0), valid == V.int(1)),
                   z3.Implies(T(E, st, valid), FA([k], z3.Implies(z3.And(0 <= k, k < N), ok(c, st, W[k])), z3.Select(W, k))),
                   z3.Implies(z3.Not(T(E, st, valid)), bad(c, st, N))))]
def inv2(L):
    c, st, E = L.c, L.st, L.E
    k, j, r = z3.Ints('k!i j!i r!i')
    N = cnt(E, st, 'down'); n = cnt(E, st, 'up')
    W, D = A(c, st, 'tr.down.2'), A(c, st, 'tr.down.0')
    U = A(c, st, 'tr.up.2'); rank = A(c, st, 'gi.rank'); valid = L.var('valid')
    vf, vf0 = A(c, st, 'f.valid'), A(c, c.st0, 'f.valid')
    rk = rank[r]
    return [('up trace', z3.And(n == L.i, L.i <= N, FA([j], z3.Implies(z3.And(0 <= j, j < L.i), z3.And(A(c, st, 'tr.up.0')[j] == D[N - 1 - j], A(c, st, 'tr.up.1')[j] == c.state)), z3.Select(A(c, st, 'tr.up.0'), j)))),
            ('flags', FA([r], vf[r] == z3.If(rk < 0, vf0[r], z3.If(rk >= N - L.i, vfinal(c, st, W[rk], U[N - 1 - rk]), vdown(c, st, W[rk]))), vf[r])),
            ('valid', z3.And(z3.Or(V.is_bool(valid), valid == V.int(0), valid == V.int(1)),
                   z3.Implies(T(E, st, valid), z3.And(FA([k], z3.Implies(z3.And(0 <= k, k < N), ok(c, st, W[k])), z3.Select(W, k)),
                              FA([j], z3.Implies(z3.And(0 <= j, j < L.i), upok(c, st, W[N - 1 - j], U[j])), z3.Select(U, j)))),
                   z3.Implies(z3.Not(T(E, st, valid)), z3.Or(bad(c, st, N), badu(c, st, L.i, N)))))]
def post(c, st, res):
    E = c.E
    if isexc(res): return [('no exception', False)]
    k, j, r, p, k2 = z3.Ints('k!p j!p r!p p!p k2!p')
    N, M = cnt(E, st, 'down'), cnt(E, st, 'enq')
    D, S, W = (A(c, st, 'tr.down.%d' % i) for i in range(3)); U = A(c, st, 'tr.up.2')
    rank, log = A(c, st, 'gi.rank'), A(c, st, 'tr.enq.0')
    vf, vf0 = A(c, st, 'f.valid'), A(c, c.st0, 'f.valid')
    good = T(E, st, res)
    return tree(c, st) + [
        ('the element is visited', N >= 1),
        ('every listed child is visited', FA([p], z3.Implies(z3.And(0 <= p, p < M), z3.And(0 <= rank[V.r(log[p])], rank[V.r(log[p])] < N)))),
        ('breadth first', FA([p, k2], z3.Implies(z3.And(0 <= p, p < M, 0 <= k2, k2 < rank[V.r(log[p])]), z3.Exists([j], z3.And(0 <= j, j < p, log[j] == D[k2]))))),
        ('the way up visits the same elements in reverse, with the state', z3.And(cnt(E, st, 'up') == N,
             FA([j], z3.Implies(z3.And(0 <= j, j < N), z3.And(A(c, st, 'tr.up.0')[j] == D[N - 1 - j], A(c, st, 'tr.up.1')[j] == c.state))))),
        ('each flag is the combination of its two verdicts', FA([k], z3.Implies(z3.And(0 <= k, k < N), vf[V.r(D[k])] == vfinal(c, st, W[k], U[N - 1 - k])))),
        ('other flags are untouched', FA([r], z3.Implies(rank[r] < 0, vf[r] == vf0[r]))),
        ('True only if no verdict failed', z3.Implies(good, FA([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(ok(c, st, W[k]), upok(c, st, W[k], U[N - 1 - k])))))),
        ('False only if some verdict failed', z3.Implies(z3.Not(good), z3.Exists([k], z3.And(0 <= k, k < N, z3.Not(z3.And(ok(c, st, W[k]), upok(c, st, W[k], U[N - 1 - k]))))))),
        ('the result is a bool', V.is_bool(E.to_v(res)))]
def post_n(c, st, res):
    E = c.E
    if isexc(res): return [('no exception', False)]
    d, u = col(E, st, 'down', 2, 0), col(E, st, 'up', 2, 0)
    v = E.getf(st, E.ref(c.me), 'valid')
    return [('one verdict each way, for this element only', z3.And(cnt(E, st, 'down') == 1, cnt(E, st, 'up') == 1, col(E, st, 'down', 0, 0) == c.me, col(E, st, 'up', 0, 0) == c.me,
              col(E, st, 'down', 1, 0) == c.state, col(E, st, 'up', 1, 0) == c.state, col(E, st, 'down', 4, 0) == V.int(0))),
            ('no children', cnt(E, st, 'enq') == 1),
            ('flag', v == z3.If(u != c.UNE, V.bool(T(E, st, u)), vdown(c, st, d))),
            ('result', E.to_v(res) == v), framed(c, st, 'f.valid', E.ref(c.me))]
def contracts(P):
    return [
        Contract('Element.validate', B_ + ':Element.validate', setup, post, env=env, unroll=2,
                 loops=[LoopSpec('down', inv1, kind='While'), LoopSpec('up', inv2, kind='For')],
                 doc='for every tree: breadth-first down pass that visits each reachable, not skipped element exactly once, reverse up pass, every flag and the result are the stated combination of the verdicts'),
        Contract('Element.validate (recurse=False)', B_ + ':Element.validate', lambda c, st: setup(c, st, False), post_n, env=env,
                 doc='only this element is visited, once each way'),
    ]
ASSUMPTIONS = ['_validate (C03) returns a bool, 0 or one of the Skip/Unevaluated markers and does not itself write .valid flags',
               'termination of Element.validate is not proved (the element tree is finite)']
