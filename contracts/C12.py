"""C12: the properties of a class are its frames overlaid nearest first; an element's overlay its class's."""
from common import *
P_ = 'flatland.schema.properties'
TL, IL, DL = P_ + ':_TypeLookup', P_ + ':_InstanceLookup', P_ + ':DictLike'
# ---- a view: what has(key) and val(key) say
class View(object):
    def __init__(self, has, val): self.has, self.val = has, val
def overlay(c, d, m, v): return View(lambda x: z3.If(z3.Select(d, x), z3.Select(m, x) != c.DEL, v.has(x)), lambda x: z3.If(z3.Select(d, x), z3.Select(m, x), v.val(x)))
def noabsent(c, st, *ms):
    x = z3.Const('x!na', V)
    for m in ms: c.assume(st, FA(x, z3.Select(m, x) != ABSENT, z3.Select(m, x)))
def own(c, st, name, cls='__builtin__:dict'):
    o = c.dict(st, name, cls); r = c.E.ref(o); noabsent(c, st, c.E.dmap(st, r)); return o, r, c.E.dom(st, r), c.E.dmap(st, r)
# ---- elements: own entries over the class's view
def inst(c, st):
    E = c.E; c.DEL = E.to_v(E.lookup_global(st, P_, 'Deleted')); c.me = c.obj(st, 'lookup', IL); c.loc, c.lr, c.ld, c.lm = own(c, st, 'local'); c.cls, c.cr, c.cd, c.cm = own(c, st, 'class_view')
    E.textkeyed.append(c.lr); E.textkeyed.append(c.cr)
    c.distinct(st, c.me, c.loc, c.cls); E.setf(st, E.ref(c.me), 'local', c.loc); E.setf(st, E.ref(c.me), 'class_lookup', c.cls); E.setclass(st, c.loc, '__builtin__:dict')
    x = z3.Const('x!in', V); c.assume(st, FA(x, z3.Implies(z3.Select(c.cd, x), z3.Select(c.cm, x) != c.DEL), z3.Select(c.cm, x)))
    c.w = c.lr; c.classview = View(lambda x: z3.Select(c.cd, x), lambda x: z3.Select(c.cm, x)); c.view = overlay(c, c.ld, c.lm, c.classview)
    c.after = lambda st: overlay(c, E.dom(st, c.lr), E.dmap(st, c.lr), c.classview)
# ---- classes: own frame over what is inherited; reading is the contract of __getitem__, the own frame that of _base_frame
def env_type(E, c):
    def get(E, st, b, f):
        v = c.after(st); k = E.to_v(b['key'])
        for s, t in E.split(st, v.has(k)): yield s, (v.val(k) if t else Exc('KeyError'))
    E.contracts[TL + '.__getitem__'] = get
    E.contracts[TL + '._base_frame'] = lambda E, st, b, f: iter([(st, c.base)])
    def items(E, st, b, f):
        s = st.clone(); v = c.after(st); x = z3.Const('x!vi', V); g = E.newdict(s); E.dset(s, E.ref(g), z3.Lambda([x], v.has(x)), z3.Lambda([x], v.val(x))); E.textkeyed.append(E.ref(g)); yield s, DictIter(E.ref(g), 'items')
    E.contracts[TL + '.iteritems'] = items
def typ(c, st):
    E = c.E; c.DEL = E.to_v(E.lookup_global(st, P_, 'Deleted')); c.me = c.obj(st, 'lookup', TL); c.base, c.w, c.ld, c.lm = own(c, st, 'own_frame'); c.inh, r, c.cd, c.cm = own(c, st, 'inherited'); c.distinct(st, c.me, c.base, c.inh)
    E.textkeyed.append(c.w)
    c.classview = View(lambda x: z3.Select(c.cd, x), lambda x: z3.Select(c.cm, x)); c.view = overlay(c, c.ld, c.lm, c.classview)
    c.after = lambda st: overlay(c, E.dom(st, c.w), E.dmap(st, c.w), c.classview); x = z3.Const('x!in', V); c.assume(st, FA(x, z3.Implies(z3.Select(c.cd, x), z3.Select(c.cm, x) != c.DEL), z3.Select(c.cm, x)))
# ---- what every mutating operation must do to the view
def frame(c, st): return [framed(c, st, n, c.w) for n in ('dom', 'map')]
def still(c, st): return [('nothing changes', z3.And(c.E.dom(st, c.w) == c.ld, c.E.dmap(st, c.w) == c.lm))] + frame(c, st)
def becomes(c, st, has, val):
    x = z3.Const('x!b', V); a = c.after(st); return [('the view is that of a plain dict after this operation', FA(x, z3.And(a.has(x) == has(x), z3.Implies(has(x), a.val(x) == val(x)))))] + frame(c, st)
def put(c, st, k, v): return becomes(c, st, lambda x: z3.Or(x == k, c.view.has(x)), lambda x: z3.If(x == k, v, c.view.val(x)))
def gone(c, st, k): return becomes(c, st, lambda x: z3.And(x != k, c.view.has(x)), c.view.val)
def setup(world, *more):
    def f(c, st):
        world(c, st); c.key = V.str(c.sym('key', S)); c.val = c.sym('value'); c.assume(st, z3.And(c.val != ABSENT, c.val != c.DEL)); m = {'key': c.key, 'value': c.val}; return [c.me] + [m[x] for x in more]
    return f
def missing(c, st, res): return [('KeyError exactly for a key the view does not have', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(c.view.has(c.key))))] + still(c, st)
def post_get(c, st, res): return missing(c, st, res) if isexc(res) else [('the nearest definition', z3.And(c.view.has(c.key), c.E.to_v(res) == c.view.val(c.key)))] + still(c, st)
def post_set(c, st, res): return [('no exception', False)] if isexc(res) else put(c, st, c.key, c.val)
def post_del(c, st, res): return missing(c, st, res) if isexc(res) else [('the key was there', c.view.has(c.key))] + gone(c, st, c.key)
def post_pop(c, st, res): return missing(c, st, res) if isexc(res) else [('the value that was seen', z3.And(c.view.has(c.key), c.E.to_v(res) == c.view.val(c.key)))] + gone(c, st, c.key)
def post_popd(c, st, res):
    if isexc(res): return [('no exception', False)]
    h = c.view.has(c.key); return [('the value that was seen, or the default', c.E.to_v(res) == z3.If(h, c.view.val(c.key), c.val))] + gone(c, st, c.key)
def post_setdefault(c, st, res):
    if isexc(res): return [('no exception', False)]
    h = c.view.has(c.key); v = z3.If(h, c.view.val(c.key), c.val); return [('the value now seen', c.E.to_v(res) == v)] + put(c, st, c.key, v)
def setup_update(world):
    def f(c, st): world(c, st); c.o, r, c.od, c.om = own(c, st, 'values'); c.E.textkeyed.append(r); c.distinct(st, c.o, c.me, V.obj(c.w)); x = z3.Const('x!up', V); c.assume(st, FA(x, z3.Implies(z3.Select(c.od, x), z3.Select(c.om, x) != c.DEL), z3.Select(c.om, x))); return [c.me, c.o]
    return f
def post_update(c, st, res): return [('no exception', False)] if isexc(res) else becomes(c, st, lambda x: z3.Or(z3.Select(c.od, x), c.view.has(x)), lambda x: z3.If(z3.Select(c.od, x), z3.Select(c.om, x), c.view.val(x)))
def post_clear(c, st, res): return [('no exception (not %s)' % res.cls, False)] if isexc(res) else becomes(c, st, lambda x: z3.BoolVal(False), lambda x: NONE)
def inv_clear(L):
    """the first i keys of the class's view (element) or of the view (class) are hidden, nothing else is touched"""
    E, c, st = L.E, L.c, L.st; n, ks, ix = E.last_dict_order; x = z3.Const('x!c', V); d, m = E.dom(st, c.w), E.dmap(st, c.w)
    return n, ks, ix, x, d, m
def inv_clear_i(L):
    E, c, st = L.E, L.c, L.st; l = E.ref(E.to_v(L.src)) if isinstance(L.src, z3.ExprRef) else None; d, m = E.dom(st, c.w), E.dmap(st, c.w); x = z3.Const('x!c', V); n, ks, ix = E.last_dict_order
    h = z3.And(z3.Select(c.cd, x), z3.Select(ix, x) < L.i); return [('bound', L.i <= n), ('keys so far are hidden, the element\'s own are gone', FA(x, z3.And(z3.Select(d, x) == h, z3.Implies(h, z3.Select(m, x) == c.DEL)), z3.Select(d, x), z3.Select(m, x), z3.Select(ix, x)))]
def inv_clear_t(L):
    E, c, st = L.E, L.c, L.st; d, m = E.dom(st, c.w), E.dmap(st, c.w); x = z3.Const('x!c', V); n, ks, ix = E.last_dict_order
    h = z3.And(c.view.has(x), z3.Select(ix, x) < L.i); return [('bound', L.i <= n), ('keys so far are hidden, others as they were', FA(x, z3.And(z3.Select(d, x) == z3.Or(h, z3.Select(c.ld, x)), z3.Select(m, x) == z3.If(h, c.DEL, z3.Select(c.lm, x))), z3.Select(d, x), z3.Select(m, x), z3.Select(ix, x)))]
# ---- enumeration: every key of the view once, with its value
def env_pos(E, c):
    def y(E, st, v):
        v = E.to_v(v); s = st.clone(); p = E.ref(c.pos); k = V.hd(v); n = E.llen(s, E.collecting[0]); E.dput(s, p, k, V.int(z3.simplify(n - 1))); return s
    E.ext['on:yield'] = y
def setup_items(world):
    def f(c, st):
        world(c, st); E = c.E; c.pos = E.newdict(st); return [c.me]
    return f
def emitted(c, st, out, has):
    """the pairs written so far: exactly the keys for which has holds, each once, with the value of the view"""
    E = c.E; p = E.ref(c.pos); pd, pm = E.dom(st, p), E.dmap(st, p); n, a = E.llen(st, out), E.larr(st, out); x = z3.Const('x!e', V); j = z3.Int('j!e'); ix = V.i(z3.Select(pm, x)); e = z3.Select(a, j)
    return [('every key so far is written', FA(x, z3.And(z3.Select(pd, x) == has(x), z3.Implies(has(x), z3.And(V.is_int(z3.Select(pm, x)), 0 <= ix, ix < n, z3.Select(a, ix) == V.cons(x, V.cons(c.view.val(x), NIL))))), z3.Select(pd, x), z3.Select(pm, x))),
            ('nothing else is written, and nothing twice', FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(pd, V.hd(e)), z3.Select(pm, V.hd(e)) == V.int(j), e == V.cons(V.hd(e), V.cons(c.view.val(V.hd(e)), NIL)))), e))]
def seenset(L, h):
    E, st = L.E, L.st; x = z3.Const('x!s', V); sd = E.dom(st, E.ref(L.var('seen'))); return ('the keys seen', FA(x, z3.Select(sd, x) == h(x), z3.Select(sd, x)))
def inv_own(L):
    E, c, st = L.E, L.c, L.st; n, ks, ix = E.last_dict_order; h = lambda x: z3.And(z3.Select(c.ld, x), z3.Select(ix, x) < L.i)
    return [('bound', L.i <= n), seenset(L, h)] + emitted(c, st, L.out, lambda x: z3.And(h(x), z3.Select(c.lm, x) != c.DEL))
def inv_class(L):
    E, c, st = L.E, L.c, L.st; n, ks, ix = E.last_dict_order; h = lambda x: z3.Or(z3.Select(c.ld, x), z3.And(z3.Select(c.cd, x), z3.Select(ix, x) < L.i))
    return [('bound', L.i <= n), seenset(L, h)] + emitted(c, st, L.out, lambda x: z3.And(h(x), c.view.has(x)))
def post_items(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return emitted(c, st, c.E.ref(c.E.to_v(res)), c.view.has) + still(c, st)
# ---- the class's view over its frames (contract of _frames: the nearest comes first)
def frames_world(c, st):
    """a list of frames; ff(x): the first frame that mentions x (their number, when none does)"""
    E = c.E; c.DEL = E.to_v(E.lookup_global(st, P_, 'Deleted')); c.me = c.obj(st, 'lookup', TL); c.fl = c.list(st, 'frames'); c.n, c.fa = E.llen(st, E.ref(c.fl)), E.larr(st, E.ref(c.fl)); c.distinct(st, c.me, c.fl)
    D, M = E.comp(st, 'dom'), E.comp(st, 'map'); c.f = lambda j: V.r(z3.Select(c.fa, j)); c.pf, c.ff = E.uf('position_of_frame', I, I), E.uf('first_frame_with', V, I); j = z3.Int('j!f'); x = z3.Const('x!f', V)
    c.fd, c.fm = (lambda j: z3.Select(D, c.f(j))), (lambda j: z3.Select(M, c.f(j)))
    c.assume(st, z3.And(FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(z3.Select(c.fa, j)), c.f(j) > 0, c.pf(c.f(j)) == j, c.f(j) != E.ref(c.me), c.f(j) != E.ref(c.fl))), z3.Select(c.fa, j)),
                        FA([x, j], z3.Implies(z3.And(0 <= j, j < c.n, z3.Select(c.fd(j), x)), c.ff(x) <= j), z3.Select(c.fd(j), x)), FA(x, z3.And(0 <= c.ff(x), c.ff(x) <= c.n, z3.Implies(c.ff(x) < c.n, z3.Select(c.fd(c.ff(x)), x))), c.ff(x)),
                        FA([x, j], z3.Select(c.fm(j), x) != ABSENT, z3.Select(c.fm(j), x))))
    c.view = View(lambda x: z3.And(c.ff(x) < c.n, z3.Select(c.fm(c.ff(x)), x) != c.DEL), lambda x: z3.Select(c.fm(c.ff(x)), x)); c.key = c.sym('key')
def env_frames(E, c):
    env_pos(E, c); E.contracts[TL + '._frames'] = lambda E, st, b, f: iter([(st, c.fl)])
    def get(E, st, o, i):
        r = E.ref(o)
        for s, t in E.split(st, E.dhas(st, r, E.to_v(i))): yield s, (E.dget(s, r, E.to_v(i)) if t else Exc('KeyError'))
    E.iface['getitem'] = get
    E.icall['iteritems'] = E.icall['items'] = lambda E, st, o, args, kw: iter([(st, DictIter(E.ref(o), 'items'))])
def setup_fget(c, st): frames_world(c, st); return [c.me, c.key]
def same(c, st): return [(n, f) for n, f in unchanged(c, st, 'dom', 'map', 'llen', 'lel')]
def inv_fget(L): c = L.c; return [('bound', L.i <= c.n), ('no frame so far mentions the key', c.ff(c.key) >= L.i)]
def post_fget(c, st, res):
    if isexc(res): return [('KeyError exactly for a key that no frame defines or the nearest one deletes', z3.And(z3.BoolVal(res.cls == 'KeyError'), z3.Not(c.view.has(c.key))))] + same(c, st)
    return [('the entry of the nearest frame', z3.And(c.view.has(c.key), c.E.to_v(res) == c.view.val(c.key)))] + same(c, st)
def setup_fitems(c, st): frames_world(c, st); c.pos = c.E.newdict(st); return [c.me]
def at(L): return L.c.pf(L.src.ref)
def inv_fo(L): c = L.c; return [('bound', L.i <= c.n), seenset(L, lambda x: c.ff(x) < L.i)] + emitted(c, L.st, L.out, lambda x: z3.And(c.ff(x) < L.i, c.view.has(x)))
def inv_fi(L):
    E, c = L.E, L.c; n, ks, ix = E.last_dict_order; J = at(L); h = lambda x: z3.Or(c.ff(x) < J, z3.And(c.ff(x) == J, z3.Select(ix, x) < L.i)); return [('bound', L.i <= n), seenset(L, h)] + emitted(c, L.st, L.out, lambda x: z3.And(h(x), c.view.has(x)))
def post_fitems(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    return emitted(c, st, c.E.ref(c.E.to_v(res)), c.view.has) + same(c, st)
# ---- the frames themselves: the classes of the mro that hold entries, up to the one declaring this descriptor
def env_mro(E, c):
    c.has, c.member, c.init = E.uf('declares_properties', I, B), E.uf('properties_member', I, V), E.uf('attr_initial_set', I, V); frozen(E, 'initial_set')
    def d(E, st, o): v = V.obj(E.uf('class_dict', I, I)(E.ref(o))); st.pc = st.pc + (V.r(v) > 0, E.uf('owner', I, I)(V.r(v)) == E.ref(o)); yield st, v
    E.iface['__dict__'] = d; ow = lambda o: E.uf('owner', I, I)(E.ref(o))
    E.iface['__mro__'] = lambda E, st, o: iter([(st, c.mro)])
    def get(E, st, o, args, kw): yield st, z3.If(c.has(ow(o)), c.member(ow(o)), E.to_v(args[1]) if len(args) > 1 else NONE)
    E.icall['get'] = get
    E.iface['contains'] = lambda E, st, o, x: iter([(st, V.bool(c.has(ow(o))))])
    E.iface['getitem'] = lambda E, st, o, i: ((s, c.member(ow(o)) if t else Exc('KeyError')) for s, t in E.split(st, c.has(ow(o))))
def mro_world(c, st):
    E = c.E; c.me = c.obj(st, 'lookup', TL); c.mp, c.w, c.ld, c.lm = own(c, st, 'frames_by_class'); c.base = c.obj(st, 'cls'); c.mro = c.list(st, 'mro'); c.distinct(st, c.me, c.mp, c.mro, c.base)
    c.n, c.ma = E.llen(st, E.ref(c.mro)), E.larr(st, E.ref(c.mro)); c.did = c.sym('descriptor_id', I); r = E.ref(c.me); E.setf(st, r, 'base', c.base); E.setf(st, r, 'map', c.mp); E.setf(st, r, 'descriptor_id', V.int(c.did))
    c.k = lambda j: z3.Select(c.ma, j); c.pk = E.uf('position_in_mro', I, I); j = z3.Int('j!m'); x = z3.Const('x!m', V); pid = E.uf('pyid', V, I)
    c.assume(st, z3.And(c.n >= 1, c.k(0) == c.base, FA(j, z3.Implies(z3.And(0 <= j, j < c.n), z3.And(V.is_obj(c.k(j)), V.r(c.k(j)) > 0, c.pk(V.r(c.k(j))) == j)), c.k(j))))
    c.assume(st, FA(x, z3.Implies(c.has(V.r(x)), z3.And(c.member(V.r(x)) != ABSENT, z3.Or(c.member(V.r(x)) == NONE, z3.And(V.is_obj(c.member(V.r(x))), V.r(c.member(V.r(x))) > 0)))), c.member(V.r(x)))); c.assume(st, FA(x, z3.Implies(z3.Select(c.ld, x), z3.And(V.is_obj(z3.Select(c.lm, x)), V.r(z3.Select(c.lm, x)) > 0)), z3.Select(c.lm, x)))
    c.assume(st, pid(NONE) != c.did); c.declares = lambda k: z3.And(c.has(V.r(k)), c.member(V.r(k)) != NONE, pid(c.member(V.r(k))) == c.did)
    c.fr = lambda k: z3.If(z3.Select(c.ld, k), z3.Select(c.lm, k), c.init(V.r(c.member(V.r(k)))))
    c.stop = c.sym('first_declaring', I); c.assume(st, z3.And(0 <= c.stop, c.stop <= c.n, FA(j, z3.Implies(z3.And(0 <= j, j < c.stop), z3.Not(c.declares(c.k(j)))), c.k(j)), z3.Implies(c.stop < c.n, c.declares(c.k(c.stop)))))
    # how many of the first j classes hold a frame (those before the declaring one: only what was stored for them)
    c.inc = lambda j: z3.Or(z3.Select(c.ld, c.k(j)), j == c.stop); c.cnt = E.uf('frames_before', I, I); c.assume(st, z3.And(c.cnt(0) == 0, FA(j, z3.Implies(0 <= j, z3.And(c.cnt(j + 1) == c.cnt(j) + z3.If(c.inc(j), 1, 0), c.cnt(j) >= 0, c.cnt(j + 1) >= c.cnt(j))), c.cnt(j), c.k(j))))
def setup_frames(c, st): mro_world(c, st); return [c.me]
def written(c, st, out, i):
    E = c.E; n, a = E.llen(st, out), E.larr(st, out); j = z3.Int('j!w')
    return [('as many frames as classes that hold one', n == c.cnt(i)), ('in order of the mro', FA(j, z3.Implies(z3.And(0 <= j, j < i, c.inc(j)), z3.And(0 <= c.cnt(j), c.cnt(j) < n, z3.Select(a, c.cnt(j)) == c.fr(c.k(j)))), c.k(j)))]
def inv_mro(L): c = L.c; return [('bound', z3.And(L.i <= c.n, L.i <= c.stop)), ('nothing is stored yet', z3.And(L.E.dom(L.st, c.w) == c.ld, L.E.dmap(L.st, c.w) == c.lm))] + written(c, L.st, L.out, L.i)
def post_frames(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; found = c.stop < c.n; k = c.k(c.stop); x = z3.Const('x!p', V)
    return written(c, st, E.ref(E.to_v(res)), z3.If(found, c.stop + 1, c.n)) + [('only the declaring class\'s initial entries may be stored', FA(x, z3.And(z3.Select(E.dom(st, c.w), x) == z3.Or(z3.Select(c.ld, x), z3.And(found, x == k)), z3.Implies(z3.Select(E.dom(st, c.w), x), z3.Select(E.dmap(st, c.w), x) == c.fr(x)))))] + frame(c, st)
def setup_base(c, st): mro_world(c, st); return [c.me]
def post_base(c, st, res):
    if isexc(res): return [('no exception (not %s)' % res.cls, False)]
    E = c.E; v = E.to_v(res); x = z3.Const('x!p', V); d, m = E.dom(st, c.w), E.dmap(st, c.w); h = z3.Select(c.ld, c.base); new = z3.And(z3.Not(h), z3.Not(c.declares(c.base)))
    return [('the frame stored for this class', z3.And(z3.Select(d, c.base), z3.Select(m, c.base) == v)), ('its stored frame, else its declaration\'s entries, else a new empty one', z3.Implies(z3.Not(new), v == c.fr(c.base))),
            ('a new frame is empty and not shared', z3.Implies(new, z3.And(V.is_obj(v), V.r(v) < 0, E.dom(st, V.r(v)) == E.EMPTYDOM))), ('no other class is touched', FA(x, z3.Implies(x != c.base, z3.And(z3.Select(d, x) == z3.Select(c.ld, x), z3.Select(m, x) == z3.Select(c.lm, x)))))] + frame(c, st)
# ---- the read views built on the enumeration of pairs
def env_like(E, c):
    E.contracts[IL + '.iteritems'] = lambda E, st, b, f: iter([(st, DictIter(c.vr, 'items'))])
    def get_(E, st, b, f):
        k = E.to_v(b['key'])
        for s, t in E.split(st, E.dhas(st, c.vr, k)): yield s, (E.dget(s, c.vr, k) if t else Exc('KeyError'))
    E.contracts[IL + '.__getitem__'] = get_
def setup_like(*more):
    def f(c, st):
        x = z3.Const('x!lk', V); c.me = c.obj(st, 'view', IL); v, c.vr, c.vd, c.vm = own(c, st, 'mapping'); c.E.textkeyed.append(c.vr); c.distinct(st, c.me, v); c.key = V.str(c.sym('key', S)); c.val = c.sym('default'); c.other = c.obj(st, 'other', '__builtin__:dict'); c.distinct(st, c.me, v, c.other); c.assume(st, c.val != ABSENT); c.assume(st, FA(x, z3.Implies(z3.Select(c.vd, x), V.is_str(x)), z3.Select(c.vd, x))); m = {'key': c.key, 'default': c.val, 'other': c.other}; return [c.me] + [m[x] for x in more]
    return f
def likepost(name, g):
    def post(c, st, res): return [('no exception (not %s)' % res.cls, False)] if isexc(res) else [(name, g(c, st, c.E.to_v(res)))] + same(c, st)
    return post
def listed(what):
    def g(c, st, r):
        E = c.E; n, a = E.llen(st, V.r(r)), E.larr(st, V.r(r)); N, ks, ix = E.last_dict_order; j = z3.Int('j!l'); k = z3.Select(ks, j); v = z3.Select(c.vm, k)
        return z3.And(n == N, FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(c.vd, k), z3.Select(a, j) == (V.cons(k, V.cons(v, NIL)) if what == 'items' else v if what == 'values' else k))), z3.Select(a, j)))
    return g
# ---- construction and access through the descriptor
PR, LS = P_ + ':Properties', P_ + ':local_storage'
def env_desc(E, c):
    E.iface['__dict__'] = lambda E, st, o: iter([(st, c.idict)])
    E.contracts[TL + '.__init__'] = lambda E, st, b, f: ((E.setf(s, E.ref(b['self']), 'base', b['cls']), E.setf(s, E.ref(b['self']), 'descriptor_id', V.int(E.pyid(b['descriptor']))), (s, None))[-1] for s in [st.clone()])
    E.contracts[IL + '.__init__'] = lambda E, st, b, f: ((E.setf(s, E.ref(b['self']), 'local', b['instance']), E.setf(s, E.ref(b['self']), 'class_lookup', b['class_lookup']), (s, None))[-1] for s in [st.clone()])
    for q in ('weakref:WeakKeyDictionary', '_weakref:WeakKeyDictionary'): E.ext['new:' + q] = lambda E, st, a, k: ((s, E.newdict(s)) for s in [st.clone()])
def desc_world(c, st, local):
    E = c.E; c.desc = c.obj(st, 'descriptor', PR); c.inst, c.cls = c.obj(st, 'instance'), c.obj(st, 'cls'); c.idict, c.ir, c.idd, c.idm = own(c, st, 'instance_dict'); c.mp, r, d, m = own(c, st, 'frames_by_class'); c.own = c.dict(st, 'own_entries', LS if local != 'plain' else '__builtin__:dict'); c.distinct(st, c.desc, c.inst, c.cls, c.idict, c.mp, c.own)
    E.setf(st, E.ref(c.desc), 'map', c.mp); k = sv('properties')
    if local: c.assume(st, z3.Select(c.idd, k)); E.dput(st, c.ir, k, c.own); c.idd, c.idm = E.dom(st, c.ir), E.dmap(st, c.ir)
    elif local is False: c.assume(st, z3.Not(z3.Select(c.idd, k)))
def setup_dget(local):
    def f(c, st):
        desc_world(c, st, local); return [c.desc, NONE if local is None else c.inst, c.cls]
    return f
def post_dget(local):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        E = c.E; v = E.to_v(res); istl = lambda v: z3.And(V.is_obj(v), V.r(v) < 0, E.getf(st, V.r(v), 'base') == c.cls, E.getf(st, V.r(v), 'descriptor_id') == V.int(E.pyid(c.desc))); fr = [framed(c, st, n) for n in ('dom', 'map')]
        if local == 'plain': return [('entries assigned to the element as a whole stand alone', v == c.own)] + fr
        if local is None: return [('on a class: the view of that very class', istl(v)), ('a class view', z3.BoolVal(E.classof(st, v) == TL))] + fr
        cl = E.getf(st, E.ref(v), 'class_lookup'); return [('on an element: its own entries over the view of its class', z3.And(V.r(v) < 0, E.getf(st, E.ref(v), 'local') == c.inst, istl(cl))), ('an element view', z3.BoolVal(E.classof(st, v) == IL))] + fr
    return post
def setup_dset(c, st): desc_world(c, st, 'any'); c.val = c.sym('value'); c.assume(st, c.val != ABSENT); return [c.desc, c.inst, c.val]
def post_dset(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; k = sv('properties'); return [('kept on that element alone', z3.And(E.dom(st, c.ir) == z3.Store(c.idd, k, True), E.dmap(st, c.ir) == z3.Store(c.idm, k, c.val)))] + [framed(c, st, n, c.ir) for n in ('dom', 'map')]
def setup_iinit(local):
    def f(c, st): desc_world(c, st, local); c.me = c.obj(st, 'lookup', IL); c.view = c.obj(st, 'class_view'); c.distinct(st, c.me, c.idict, c.own, c.view); return [c.me, c.inst, c.view]
    return f
def post_iinit(local):
    def post(c, st, res):
        if isexc(res): return [('no exception (not %s)' % res.cls, False)]
        E = c.E; l = E.getf(st, E.ref(c.me), 'local'); k = sv('properties'); x = z3.Const('x!p', V); d, m = E.dom(st, c.ir), E.dmap(st, c.ir)
        return [('reads through to the class', E.getf(st, E.ref(c.me), 'class_lookup') == c.view), ('the element\'s own entries: those it has, else a new empty overlay', l == c.own if local else z3.And(V.is_obj(l), V.r(l) < 0, E.dom(st, V.r(l)) == E.EMPTYDOM)),
                ('kept on the element', z3.And(z3.Select(d, k), z3.Select(m, k) == l)), ('nothing else of the element changes', FA(x, z3.Implies(x != k, z3.And(z3.Select(d, x) == z3.Select(c.idd, x), z3.Select(m, x) == z3.Select(c.idm, x)))))] + [framed(c, st, n, c.ir) for n in ('dom', 'map')]
    return post
def setup_tinit(c, st): desc_world(c, st, None); c.me = c.obj(st, 'lookup', TL); c.distinct(st, c.me, c.desc, c.cls, c.mp); return [c.me, c.cls, c.desc]
def post_tinit(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; g = lambda n: E.getf(st, E.ref(c.me), n); return [('the view of that class through that declaration', z3.And(g('base') == c.cls, g('map') == c.mp, g('descriptor_id') == V.int(E.pyid(c.desc))))] + [framed(c, st, n) for n in ('dom', 'map')]
def setup_pinit(c, st): c.desc = c.obj(st, 'descriptor', PR); c.o, r, c.od, c.om = own(c, st, 'entries'); c.distinct(st, c.desc, c.o); return [c.desc, c.o]
def post_pinit(c, st, res):
    if isexc(res): return [('no exception', False)]
    E = c.E; i, m = (E.getf(st, E.ref(c.desc), n) for n in ('initial_set', 'map')); return [('a copy of the given entries', z3.And(V.is_obj(i), V.r(i) < 0, E.dom(st, V.r(i)) == c.od, E.dmap(st, V.r(i)) == c.om)), ('nothing stored for any class yet', z3.And(V.is_obj(m), V.r(m) < 0, V.r(m) != V.r(i), E.dom(st, V.r(m)) == E.EMPTYDOM))] + [framed(c, st, n) for n in ('dom', 'map')]
def srcis(r): return lambda E, st, fr, node, src: isinstance(src, DictIter) and z3.is_true(z3.simplify(src.ref == r(E.ghost)))
def contracts(P):
    C = lambda n, t, s, p, e=None, **k: Contract(n, t, s, p, env=e, **k); out = []
    for w, K, n, e in ((inst, IL, 'element', None), (typ, TL, 'class', env_type)):
        if w is inst: out.append(C(n + '[key]', K + '.__getitem__', setup(w, 'key'), post_get, e))
        out += [C(n + '[key] = value', K + '.__setitem__', setup(w, 'key', 'value'), post_set, e), C('del %s[key]' % n, K + '.__delitem__', setup(w, 'key'), post_del, e),
                C(n + '.pop(key)', K + '.pop', setup(w, 'key'), post_pop, e), C(n + '.pop(key, default)', K + '.pop', setup(w, 'key', 'value'), post_popd, e), C(n + '.setdefault', K + '.setdefault', setup(w, 'key', 'value'), post_setdefault, e),
                C(n + '.update', K + '.update', setup_update(w), post_update, e), C(n + '.clear', K + '.clear', setup(w), post_clear, e, loops=[LoopSpec('keys', inv_clear_i if w is inst else inv_clear_t, kind='For')])]
    out.append(C('element.iteritems', IL + '.iteritems', setup_items(inst), post_items, env_pos, loops=[LoopSpec('own', inv_own, kind='For', match=srcis(lambda c: c.lr)), LoopSpec('of the class', inv_class, kind='For', match=srcis(lambda c: c.cr))], collect=True))
    out += [C('class[key]', TL + '.__getitem__', setup_fget, post_fget, env_frames, loops=[LoopSpec('frames', inv_fget, kind='For')]),
            C('class.iteritems', TL + '.iteritems', setup_fitems, post_fitems, env_frames, loops=[LoopSpec('frames', inv_fo, kind='For', match=lambda E, st, fr, node, src: isinstance(src, z3.ExprRef)), LoopSpec('entries', inv_fi, kind='For', match=lambda E, st, fr, node, src: isinstance(src, DictIter))], collect=True),
            C('_frames', TL + '._frames', setup_frames, post_frames, env_mro, loops=[LoopSpec('mro', inv_mro, kind='For')], collect=True), C('_base_frame', TL + '._base_frame', setup_base, post_base, env_mro)]
    L = lambda n, t, g, *a: C(n, DL + '.' + t, setup_like(*a), likepost(n, g), env_like); inm = lambda c: z3.Select(c.vd, c.key)
    out += [L('get', 'get', lambda c, st, r: r == z3.If(inm(c), z3.Select(c.vm, c.key), c.val), 'key', 'default'), L('key in view', '__contains__', lambda c, st, r: r == V.bool(inm(c)), 'key'),
            L('copy', 'copy', lambda c, st, r: z3.And(V.is_obj(r), V.r(r) < 0, c.E.dom(st, V.r(r)) == c.vd, FA([z3.Const('x!y', V)], z3.Implies(z3.Select(c.vd, z3.Const('x!y', V)), z3.Select(c.E.dmap(st, V.r(r)), z3.Const('x!y', V)) == z3.Select(c.vm, z3.Const('x!y', V)))))),
            L('truth', '__nonzero__', lambda c, st, r: r == V.bool(z3.Exists([z3.Const('x!y', V)], z3.Select(c.vd, z3.Const('x!y', V))))),
            L('items', 'items', listed('items')), L('keys', 'keys', listed('keys')), L('values', 'values', listed('values'))]
    for l, n in ((None, 'on a class'), (False, 'on an element'), (True, 'on an element with own entries'), ('plain', 'assigned as a whole')):
        out.append(C('properties.__get__ (%s)' % n, PR + '.__get__', setup_dget(l), post_dget(l), env_desc))
        if l in (True, False): out.append(C('_InstanceLookup.__init__ (%s)' % n, IL + '.__init__', setup_iinit(l), post_iinit(l), lambda E, c: (env_desc(E, c), E.contracts.pop(IL + '.__init__'))))
    out += [C('properties.__set__', PR + '.__set__', setup_dset, post_dset, env_desc), C('Properties()', PR + '.__init__', setup_pinit, post_pinit, env_desc), C('_TypeLookup.__init__', TL + '.__init__', setup_tinit, post_tinit, lambda E, c: (env_desc(E, c), E.contracts.pop(TL + '.__init__')))]
    return out
ASSUMPTIONS = ['keys are text in the contracts that enumerate a view (the lookups themselves allow any key)', 'a WeakKeyDictionary behaves as a dictionary keyed by class while those classes live', 'the overlay view equals the frame view with the own frame first (the two forms of the same definition)', '__eq__ and __ne__ compare the copy (contract of copy) with a plain dict: that comparison is Python\'s own', 'a view being enumerated while only its own frame gains already enumerated keys enumerates what it held (Jython dict semantics)']
