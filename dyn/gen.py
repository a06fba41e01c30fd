# random schemas and elements for the executable contracts
import datetime
from flatland import (Array, Boolean, Date, DateTime, DateYYYYMMDD, Dict, Enum, Float, Decimal, Form, Integer, JoinedString, List, Long, MultiValue,
                      SparseDict, String, Time)
from flatland.schema.base import Element, Slot
NAMES = [u'a', u'b', u'c', u'd', u'e', u'x', u'y', u'ab', u'n1', u'caf\xe9']

def scalar(rng, name):
    S = rng.choice([String, String, Integer, Boolean, Long, Date])
    return S.named(name)

def schema(rng, depth, name, lists=True, arrays=True, sparse=True, compound=False, unnamed=True):
    """a random schema of at most the given depth"""
    r = rng.random()
    if depth <= 0 or r < 0.3:
        if arrays and rng.random() < 0.2:
            return rng.choice([Array, MultiValue]).named(name).of(scalar(rng, None if unnamed and rng.random() < .6 else u'm')).using(prune_empty=rng.random() < .5)
        if compound and rng.random() < 0.15:
            return rng.choice([DateYYYYMMDD, JoinedString]).named(name)
        return scalar(rng, name)
    if lists and r < 0.6:
        mn = rng.choice([None, None, u'm', u'x']) if unnamed else rng.choice([u'm', u'x'])
        return List.named(name).of(schema(rng, depth - 1, mn, lists, arrays, sparse, compound, unnamed)).using(prune_empty=rng.random() < .5)
    D = rng.choice([Dict, Dict, SparseDict]) if sparse else Dict
    names = rng.sample(NAMES, rng.randrange(1, 5))
    s = D.named(name).of(*[schema(rng, depth - 1, n, lists, arrays, sparse, compound, unnamed) for n in names])
    if D is SparseDict and rng.random() < .4: s = s.using(minimum_fields='required')
    return s

def text(rng):
    return rng.choice([u'', u'x', u'hello', u' pad ', u'1', u'on', u'caf\xe9', u'\u0663', u'a_b', u'2009-10-10', u'_', u'42'])

def value(rng, s, good=0.8):
    """a plausible value for an element of schema s"""
    if issubclass(s, JoinedString): return u','.join(rng.choice([u'a', u'b', u'', u'c']) for _ in range(rng.randrange(4)))
    if issubclass(s, DateYYYYMMDD): return rng.choice([None, datetime.date(2001, 2, 3), u'1999-12-31', u'junk'])
    if issubclass(s, (Array, List)):
        return [value(rng, s.member_schema, good) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if issubclass(s, Dict):
        out = {}
        for f in s.field_schema:
            if rng.random() < good: out[f.name] = value(rng, f, good)
        return out
    if issubclass(s, (Integer, Long)): return rng.choice([0, 1, -5, 123456789, u'77', u'bad', None])
    if issubclass(s, Boolean): return rng.choice([True, False, u'on', u'zzz', None])
    if issubclass(s, Date): return rng.choice([datetime.date(2000, 1, 2), u'1999-12-31', u'nope', None])
    return rng.choice([text(rng), None])

def element(rng, depth=3, name=None, **kw):
    s = schema(rng, depth, name, **kw)
    el = s()
    for _ in range(3):
        try:
            el.set(value(rng, s)); break
        except (TypeError, KeyError):
            el = s()
    return el

def kids(el):
    """the children of an element in order, from the underlying containers"""
    if isinstance(el, List): return [list.__getitem__(el, i).element for i in range(list.__len__(el))]
    if isinstance(el, list): return [list.__getitem__(el, i) for i in range(list.__len__(el))]
    if isinstance(el, dict): return list(dict.values(el))
    return []

def bfs(el):
    out, q = [], [el]
    while q:
        x = q.pop(0)
        if any(x is y for y in out): continue
        out.append(x); q.extend(kids(x))
    return out

def describe(el, depth=0):
    if isinstance(el, List): return [describe(k) for k in kids(el)]
    if isinstance(el, (list,)): return ('arr', [describe(k) for k in kids(el)])
    if isinstance(el, dict): return dict((k, describe(v)) for k, v in dict.items(el))
    return el.u

def ancestors(el):
    """physical parent chain from the nearest"""
    out = []; p = el.parent
    while p is not None: out.append(p); p = p.parent
    return out
