# -*- coding: utf-8 -*-
# executable contracts for C25: defaults
import datetime
import gen
from flatland import Array, Boolean, Date, DateYYYYMMDD, Dict, Integer, JoinedString, List, MultiValue, SparseDict, String
from flatland.util import Unspecified
CALLS = []
def factory(v, form):
    if form == 'fn':
        def f(el): CALLS.append(el); return v
        return f
    class F(object):
        def __call__(self, el): CALLS.append(el); return v
    return F()
def scalar(rng, name, spec):
    T = rng.choice([String, Integer, Boolean, Date]); S = T.named(name)
    return dress(rng, S, {String: [u' d ', u'', None, 5, Unspecified], Integer: [3, u'4', u'bad', None, 0, Unspecified], Boolean: [True, False, u'on', None, Unspecified], Date: [u'2001-02-03', datetime.date(2004, 5, 6), None, u'x', Unspecified]}[T], spec)
def dress(rng, S, values, spec):
    """attach default and/or default_factory; spec records what was asked for"""
    r = rng.random(); d = None; f = None; has_f = False
    if r < .55: d = rng.choice(values); S = S.using(default=d)
    if rng.random() < .25:
        f = rng.choice(values); has_f = True; S = S.using(default_factory=factory(f, rng.choice(['fn', 'obj'])))
    spec[S] = f if has_f else d
    return S
def schema(rng, depth, name, spec):
    r = rng.random()
    if depth <= 0 or r < .35: return scalar(rng, name, spec)
    if r < .65:
        M = schema(rng, depth - 1, rng.choice([None, u'm']), spec)
        if isinstance(M(), (String, Integer, Boolean, Date)): vals = [[u'1', u'2'], [], 0, 1, 3, None, Unspecified, (u'5',)]; T = rng.choice([List, List, Array])
        else: vals = [0, 1, 2, None, Unspecified]; T = List
        if T is Array: vals = [v for v in vals if not isinstance(v, int)]
        S = T.named(name).of(M)
        return dress(rng, S, vals, spec)
    names = rng.sample([u'a', u'b', u'c'], rng.randrange(1, 4))
    D = rng.choice([Dict, Dict, SparseDict])
    fs = [schema(rng, depth - 1, n, spec).using(optional=rng.random() < .5) for n in names]
    for i, f in enumerate(fs): spec[f] = spec[f.__mro__[1]]
    S = D.named(name).of(*fs)
    if D is SparseDict and rng.random() < .6: S = S.using(minimum_fields='required')
    vals = [None, None, None, Unspecified]
    if all(issubclass(f, (String, Integer)) for f in fs): vals.append(dict((n, u'9') for n in names))
    return dress(rng, S, vals, spec)
def shape(el):
    if isinstance(el, dict): return 'd', dict((k, shape(v)) for k, v in dict.items(el))
    if isinstance(el, list): return 'l', [shape(m) for m in gen.kids(el)]
    return 's', el.value, el.u
def blank(S): return shape(S())
def want(S, spec, prior):
    """what resetting an element of schema S whose shape is prior must give"""
    d = spec.get(S)
    if issubclass(S, dict):
        if d is not None and d is not Unspecified:
            e = S(); e.set(d); return shape(e)
        if issubclass(S, SparseDict):
            return 'd', dict((f.name, want(f, spec, blank(f))) for f in S.field_schema if S.minimum_fields and not f.optional)
        return 'd', dict((f.name, want(f, spec, prior[1][f.name])) for f in S.field_schema)
    if issubclass(S, list):
        if d is None or d is Unspecified: return prior
        if isinstance(d, int): return 'l', [want(S.member_schema, spec, blank(S.member_schema)) for _ in range(d)]
        out = []
        for v in d: e = S.member_schema(); e.set(v); out.append(shape(e))
        return 'l', out
    if d is Unspecified: return prior
    e = S(); e.set(d); return shape(e)
def run(H):
    H.rule = 'random schemas with random defaults and factories at every level, fresh and already filled elements, against a reference'
    rng = H.rng
    for k in range(H.scale(5000, 80000)):
        if not H.more(): break
        spec = {}
        S = schema(rng, rng.randrange(0, 4), rng.choice([None, u'r']), spec)
        H.group([c for c in S.__mro__ if c.__module__.startswith('flatland.schema')][0].__name__)
        H.case(describe(S, spec))
        el = S()
        if rng.random() < .5:
            try: el.set(gen.value(rng, S))
            except (TypeError, KeyError): el = S()
        prior = shape(el)
        del CALLS[:]
        r = H.call(el.set_default)
        if not H.check(r[0] == 'ok', 'set_default', r): continue
        if S.default_factory is not None: H.check(len([c for c in CALLS if c is el]) == 1, 'the factory is called with the element, once', CALLS)
        H.eq(shape(el), want(S, spec, prior), 'the element after set_default')
        d = spec.get(S)
        if isinstance(el, (List, dict)) and isinstance(d, (list, tuple, dict)): H.eq(el.raw, d, 'a container that was set to its default remembers it as its raw value')
        first = shape(el)
        el.set_default(); H.eq(shape(el), first, 'repeating the reset gives the same result')
        f = S.from_defaults(); g = S(); g.set_default()
        H.eq(shape(f), shape(g), 'from_defaults is construction and reset'); H.eq(shape(f), want(S, spec, blank(S)), 'from_defaults')
        for e in (el, f):
            for x in gen.bfs(e):
                H.check(x is e or any(p is e for p in gen.ancestors(x)), 'descendants are attached', x)
                if isinstance(x, List): H.eq([list.__getitem__(x, i).name for i in range(len(x))], [u'%d' % i for i in range(len(x))], 'list numbering')
    H.group('default_value'); H.case('factory wins')
    S = Integer.using(default=1, default_factory=lambda el: 2); H.eq(S().default_value, 2, 'the factory is preferred'); H.eq(Integer.using(default=1)().default_value, 1, 'default'); H.eq(Integer().default_value, None, 'no default')
    H.eq(Integer(default=7).default_value, 7, 'instance default'); e = Integer(default_factory=lambda el: el.name, name=u'5'); e.set_default(); H.eq(e.value, 5, 'factory sees its element')
    H.case('bool default'); l = List.of(Integer.using(default=4)).using(default=2)(); l.set_default(); H.eq(l.value, [4, 4], 'list of defaults')
    H.case('compound'); S = DateYYYYMMDD.using(default=datetime.date(2001, 2, 3)); e = S.from_defaults(); H.eq(e.value, datetime.date(2001, 2, 3), 'compound default')
    S = JoinedString.using(default=u'a,b'); H.case('joined'); e = S.from_defaults(); H.eq(e.value, u'a,b', 'a joined string is set to its default'); H.eq([m.u for m in e], [u'a', u'b'], 'and split')
    e = JoinedString.using(default=[u'x', u'y']).from_defaults(); H.eq(e.value, u'x,y', 'joined list default'); e = JoinedString.from_defaults(); H.eq(e.value, u'', 'joined without default')
def describe(S, spec):
    n = [c for c in S.__mro__ if c.__module__.startswith('flatland.schema')][0].__name__
    d = (spec.get(S), S.default_factory is not None, S.optional)
    if issubclass(S, dict): return n, S.name, d, getattr(S, 'minimum_fields', None), [describe(f, spec) for f in S.field_schema]
    if issubclass(S, list): return n, S.name, d, describe(S.member_schema, spec)
    return n, S.name, d
