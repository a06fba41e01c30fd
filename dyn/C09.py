# -*- coding: utf-8 -*-
# executable contracts for C09: setting a mapping
from collections import namedtuple
from flatland import Dict, SparseDict, String, Integer, Boolean, List
from flatland.schema.containers import Mapping
class KeysOnly(object):
    def __init__(self, pairs): self.p = pairs
    def keys(self): return [k for k, v in self.p]
    def __getitem__(self, k):
        for a, b in reversed(self.p):
            if a == k: return b
        raise KeyError(k)
def run(H):
    H.rule = 'random schemas, policies, pair collections (repeated, unknown, missing and unconvertible entries, several dict-like forms) against a reference'
    rng = H.rng
    for k in range(H.scale(7000, 120000)):
        if not H.more(): break
        names = rng.sample([u'a', u'b', u'c', u'd'], rng.randrange(1, 5))
        fields = [rng.choice([String, Integer, Integer, List.of(Integer)]).named(n) for n in names]
        base = rng.choice([Dict, Dict, SparseDict, Mapping])
        policy = rng.choice(['duck', 'subset', 'strict'])
        if base is Mapping:
            class M(Mapping): field_schema = tuple(fields)
            eff = 'strict'; override = None
        else:
            M = base.of(*fields).using(policy=policy)
            if base is SparseDict and rng.random() < .5: M = M.using(minimum_fields='required')
            override = rng.choice([None, None, 'duck', 'subset', 'strict']); eff = override or policy
        el = M()
        for n in names:
            if rng.random() < .7: el[n] = [8] if isinstance(M.field_schema[names.index(n)](), List) else 8
        pool = names if rng.random() < .6 else names + [u'zz', 5]
        pairs = [(rng.choice(pool), rng.choice([1, u'2', u'bad', None, u'', 3])) for _ in range(rng.randrange(6))]
        if rng.random() < .5: pairs = [(n, rng.choice([1, u'2', u'bad', None])) for n in names] + pairs[:2]
        kinds = dict(zip(names, fields))
        pairs = [(n, [v] if n in kinds and issubclass(kinds[n], List) and rng.random() < .8 else v) for n, v in pairs]
        form = rng.choice(['list', 'iter', 'dict', 'keys', 'tuple'])
        if form == 'dict': src = dict(pairs); pairs = list(src.items())
        elif form == 'keys': src = KeysOnly(pairs); pairs = [(n, src[n]) for n in src.keys()]
        elif form == 'iter': src = iter(pairs)
        elif form == 'tuple': src = tuple(pairs)
        else: src = list(pairs)
        H.group('%s %s' % (base.__name__, eff)); H.case(names, [f.__mro__[2].__name__ for f in fields], policy, override, form, pairs)
        r = H.call(el.set, src) if override is None else H.call(el.set, src, override)
        H.check(el.raw is src, 'the raw value is the input')
        unknown = [p for p in pairs if p[0] not in names]
        used = []
        for p in pairs:
            if p[0] in names: used.append(p)
            elif eff != 'duck': break
        if unknown and eff != 'duck':
            H.check(r == ('exc', 'KeyError'), 'an unknown key raises KeyError', r)
        elif eff == 'strict' and set(n for n, v in used) != set(names):
            H.check(r == ('exc', 'TypeError'), 'a missing key raises TypeError', r)
        else:
            ok = True; want = {}
            for n, v in used:
                ref = kinds[n](); ok = ref.set(v) and ok; want[n] = ref
            H.check(r[0] == 'ok' and bool(r[1]) == ok and r[1] in (True, False), 'True exactly when every assignment succeeded', (r, ok))
            for n in names:
                if n in want:
                    if H.check(n in el, 'a named field is present', n): H.check(el[n].value == want[n].value and el[n].u == want[n].u, 'the field holds the last value given', (n, el[n].value, want[n].value))
                elif base is SparseDict and M.minimum_fields is None: H.check(n not in el, 'an unnamed field is reset away', n)
                else: H.check(n in el and el[n].value == kinds[n]().value and el[n].u == kinds[n]().u, 'an unnamed field is reset to blank', (n, n in el and el[n].value))
        H.check(set(el.keys()) <= set(names), 'keys stay within the schema')
    H.group('other forms')
    D = Dict.of(Integer.named(u'x'), Integer.named(u'y'))
    P = namedtuple('P', 'x y'); d = D(); H.case('namedtuple'); H.check(d.set(P(1, 2)) is True and d.value == {u'x': 1, u'y': 2}, 'named tuples are dict-like', d)
    H.case('bad'); H.check(H.call(d.set, [5])[0] == 'exc', 'a non pair raises')
    H.case('bad policy'); H.raises(AssertionError, 'unknown policy', d.set, {}, 'nope')
