# -*- coding: utf-8 -*-
# executable contracts for C18: built-in scalar and container validators
import datetime, operator
from flatland import Array, Boolean, Date, Dict, Float, Integer, List, MultiValue, String, DateYYYYMMDD, JoinedString
from flatland import validation as V
from flatland.validation.scalars import MapEqual
import gen
def state_of(e): return [(x.u, x.value, x.raw, x.valid, list(x.errors), list(x.warnings), x.name, x.parent, dict(x.properties), list(x.validators)) for x in gen.bfs(e)] + [len(gen.bfs(e))]
def quiet(e): return [(x.u, x.value, x.raw, x.name, x.parent, len(x.warnings), x.valid) for x in gen.bfs(e)] + [[list(y.errors) for y in gen.bfs(e) if y is not e]]
def judge(H, v, e, want, state=None, tree=None):
    """run validator v on e twice; want is the documented condition"""
    tree = tree if tree is not None else e
    del e.errors[:]
    before, q = state_of(tree), [quiet(tree)]
    others = [(x, list(x.errors)) for x in gen.bfs(tree) if x is not e]
    ok, r = H.noexc('validating', v, e, state)
    if not ok: return
    H.check(r is want, 'True exactly when the condition holds', (r, want))
    H.check(all(list(x.errors) == old for x, old in others), 'no other element gets a message')
    if want: H.check(state_of(tree) == before, 'a passing validator changes nothing')
    else:
        H.check(len(e.errors) == 1 and isinstance(e.errors[0], basestring) and e.errors[0], 'exactly one message', e.errors)
        first = list(e.errors)
        H.check([(x.u, x.value, x.raw, x.name, x.parent) for x in gen.bfs(tree)] == [(b[0], b[1], b[2], b[6], b[7]) for b in before[:-1]], 'value and text are not altered')
        r2 = H.call(v, e, state)
        H.check(r2 == ('ok', want) and list(e.errors) == first, 'repeating gives the same answer and no second message', (r2, e.errors))
    del e.errors[:]
SC = [String, String.using(strip=False), Integer, Boolean, Float, Date]
def scalar(rng):
    S = rng.choice(SC).named(u'f'); v = rng.choice([u'', u' ', u'a', u'0', u'1', u'abc', u'\xe9\u0663', u'abcd', None, 0, 1, -1, 7, True, False, u'x' * rng.randrange(12), 1.5, u'2001-02-03', datetime.date(2001, 2, 3), u'%', u'%(label)s', u'100%'])
    e = S(v) if rng.random() < .95 else S()
    return e
def run(H):
    H.rule = 'random elements (valid, invalid, empty, unset; scalars and sequences) against every built-in validator with bounds around the measured quantity; expected answers computed from the documented conditions'
    rng = H.rng
    H.group('scalar validators')
    for k in range(H.scale(5000, 100000)):
        if not H.more(): break
        e = scalar(rng); n = len(e.u); d = rng.choice([-1, 0, 1, 0, 2, -2, 5])
        name = rng.choice(['Present', 'IsTrue', 'IsFalse', 'ValueIn', 'Converted', 'ShorterThan', 'NoLongerThan', 'LongerThan', 'LengthBetween'])
        cls = getattr(V, name)
        if name == 'ValueIn':
            opts = rng.choice([(), (e.value,), [1, u'a', e.value], [1, u'a'], set([e.value, 3]), {u'a': 1}, (None,), u'abc' if isinstance(e.value, unicode) else [u'abc'], xrange(3)])
            v = cls(opts) if rng.random() < .5 else cls(valid_options=opts); want = any(o == e.value for o in opts) if not isinstance(opts, unicode) else e.value in opts
        elif name in ('ShorterThan', 'NoLongerThan'):
            b = n + d; v = cls(b) if rng.random() < .5 else cls(maxlength=b); want = n <= b
        elif name == 'LongerThan':
            b = n + d; v = cls(b) if rng.random() < .5 else cls(minlength=b); want = n >= b
        elif name == 'LengthBetween':
            b, c = n + d, n + rng.choice([-1, 0, 1, 3]); v = cls(b, c) if rng.random() < .5 else cls(minlength=b, maxlength=c); want = b <= n <= c
        else:
            v = cls(); want = {'Present': e.u != u'', 'IsTrue': True if e.value else False, 'IsFalse': False if e.value else True, 'Converted': e.value is not None}[name]
        H.case(name, e.__class__.__mro__[1].__name__, e.raw, e.u, d, sorted(v.__dict__.items(), key=repr))
        judge(H, v, e, want)
    H.group('bounds of values')
    for k in range(H.scale(3500, 80000)):
        if not H.more(): break
        x = rng.choice([0, 1, -1, 5, 10 ** 20, rng.randrange(-9, 9)])
        kind = rng.choice([Integer, Float, Date, String])
        if kind is Date: mk = lambda i: datetime.date(2000, 1, 1) + datetime.timedelta(max(-9, min(i, 900)))
        elif kind is String: mk = lambda i: unicode(chr(100 + max(-9, min(i, 9))))
        else: mk = lambda i: kind().type_(i)
        e = kind.named(u'f')(mk(x)); val = e.value
        lo, hi = mk(min(x, 8) + rng.choice([-2, -1, 0, 1])), mk(min(x, 8) + rng.choice([-1, 0, 1, 2]))
        name = rng.choice(['ValueLessThan', 'ValueAtMost', 'ValueGreaterThan', 'ValueAtLeast', 'ValueBetween', 'ValueBetween'])
        if name == 'ValueLessThan': v = V.ValueLessThan(boundary=lo); want = val < lo
        elif name == 'ValueAtMost': v = V.ValueAtMost(maximum=lo); want = val <= lo
        elif name == 'ValueGreaterThan': v = V.ValueGreaterThan(boundary=lo); want = val > lo
        elif name == 'ValueAtLeast': v = V.ValueAtLeast(lo); want = val >= lo
        else:
            inc = rng.choice([None, True, False]); kw = {} if inc is None else {'inclusive': inc}
            v = V.ValueBetween(lo, hi, **kw); want = lo < val < hi if inc is False else lo <= val <= hi
        H.case(name, kind.__name__, val, lo, hi, sorted(v.__dict__.items(), key=repr))
        judge(H, v, e, bool(want))
    H.group('member counts')
    for k in range(H.scale(2000, 40000)):
        if not H.more(): break
        S = rng.choice([List, Array, MultiValue, JoinedString]).named(u'l'); S = S.of(rng.choice([String.named(u's'), Integer] + ([Dict.of(String.named(u'a'))] if S.__mro__[1] is not JoinedString else [])))
        n = rng.randrange(0, 5); e = S()
        for i in range(n): e.append(S.member_schema(rng.choice([u'1', u'', u'22', None])) if not issubclass(S.member_schema, Dict) else S.member_schema())
        a, b = max(0, n + rng.choice([-2, -1, 0, 1, 2])), max(0, n + rng.choice([-1, 0, 1, 2]))
        name = rng.choice(['HasAtLeast', 'HasAtMost', 'HasBetween'])
        H.case(name, S.__mro__[2].__name__, n, a, b)
        if name == 'HasAtLeast': judge(H, V.HasAtLeast(minimum=a), e, n >= a)
        elif name == 'HasAtMost': judge(H, V.HasAtMost(maximum=a), e, n <= a)
        else:
            if a > b: H.raises(TypeError, 'nonsensical bounds', V.HasBetween, minimum=a, maximum=b)
            else: judge(H, V.HasBetween(minimum=a, maximum=b), e, a <= n <= b)
    H.case('defaults'); e = List.named(u'l').of(String)()
    judge(H, V.HasAtLeast(), e, False); judge(H, V.HasAtMost(), e, True); judge(H, V.HasBetween(), e, False); e.append(u'x'); judge(H, V.HasAtLeast(), e, True); judge(H, V.HasAtMost(), e, True); judge(H, V.HasBetween(), e, True); e.append(u'y'); judge(H, V.HasAtMost(), e, False); judge(H, V.HasBetween(), e, False)
    H.group('no duplicates')
    for k in range(H.scale(2500, 50000)):
        if not H.more(): break
        ms = rng.choice([String.named(u's'), Integer.named(u's'), String, Dict.of(String.named(u'a'), Integer.named(u'b'))])
        S = rng.choice([List, Array]).named(u'l').of(ms); vals = [rng.choice([u'1', u'2', u'x', u'', u'3']) for _ in range(rng.randrange(1, 7))]
        if issubclass(ms, Dict): vals = [{u'a': v, u'b': v if rng.random() < .8 else u'7'} for v in vals]
        e = S(vals); cmp_ = rng.choice([None, None, lambda a, b: len(a.u) == len(b.u), lambda a, b: False, lambda a, b: True])
        v = V.NotDuplicated() if cmp_ is None else V.NotDuplicated(comparator=cmp_); f = cmp_ or operator.eq
        if rng.random() < .3: Dict.of(S)().set({u'l': vals})
        for i in range(len(vals)):
            m = e[i]
            if cmp_ is None:
                want = not any(e[j].value == m.value and e[j].u == m.u for j in range(i))
            else: want = not any(cmp_(m, e[j]) for j in range(i))
            H.case(S.__mro__[2].__name__, vals, i, cmp_ is None)
            judge(H, v, m, want, tree=e)
    H.case('orphan'); H.raises(TypeError, 'an element without parent', V.NotDuplicated(), String.named(u's')(), None)
    pos = []
    class ND(V.NotDuplicated):
        def note_error(self, element, state, key=None, message=None, **info): pos.append(info); return V.NotDuplicated.note_error(self, element, state, key, message, **info)
    e = List.named(u'l').of(String.named(u's'))([u'a', u'b', u'a']); ND()(e[2], None); H.case('info'); H.eq(pos, [{'position': 3, 'container_label': u'l'}], 'position and container label'); H.eq(list(e[2].errors), [u's may not be repeated within l.'], 'the message')
    H.group('equality of fields')
    for k in range(H.scale(2000, 40000)):
        if not H.more(): break
        D = Dict.named(u'd').of(String.named(u'a'), String.named(u'b'), Integer.named(u'c'), Dict.named(u'n').of(String.named(u'x')))
        e = D(); val = lambda: rng.choice([u'1', u'2', u'01', u'', None, u'x'])
        e.set({u'a': val(), u'b': val(), u'c': val(), u'n': {u'x': val()}})
        paths = rng.choice([('a', 'b'), ('a', 'b', 'n/x'), ('b', 'a'), ('a', 'c'), ('a', 'a'), ('n/x', 'b'), ('c', 'c', 'c'), ('a', 'b', 'a')])
        get = {'a': e[u'a'], 'b': e[u'b'], 'c': e[u'c'], 'n/x': e[u'n'][u'x']}
        kind = rng.choice(['ValuesEqual', 'UnisEqual', 'Map', 'default']); els = [get[p] for p in paths]
        if kind == 'Map': tr = lambda el: len(el.u); v = MapEqual(*paths, transform=tr)
        elif kind == 'ValuesEqual': tr = lambda el: el.value; v = V.ValuesEqual(*paths)
        elif kind == 'UnisEqual': tr = lambda el: el.u; v = V.UnisEqual(*paths)
        else: tr = lambda el: (el.value, el.u); v = MapEqual(*paths)
        want = all(tr(x) == tr(els[0]) for x in els[1:])
        H.case(kind, paths, [x.u for x in els], [x.value for x in els])
        judge(H, v, e, want)
        if not want:
            v(e, None); H.eq(list(e.errors), [u'%s and %s do not match.' % (u', '.join(x.label for x in els[:-1]), els[-1].label)], 'the message names the fields'); del e.errors[:]
    H.case('construction'); H.raises(AssertionError, 'one path', V.ValuesEqual, 'a'); H.raises(AssertionError, 'no path', V.ValuesEqual)
    H.group('validators are reusable'); 
    for cls, kw, attr in ((V.Present, {}, 'missing'), (V.IsTrue, {}, 'false'), (V.Converted, {}, 'incorrect'), (V.HasAtLeast, {'minimum': 2}, 'minimum')):
        H.case(cls.__name__); base = getattr(cls, attr); v = cls(**dict(kw, **({attr: u'm!'} if not kw else {}))); H.check(getattr(cls, attr) == base, 'overriding on an instance leaves the class')
        H.raises(TypeError, 'unknown override', cls, bogus=1)
