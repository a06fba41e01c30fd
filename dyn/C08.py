# -*- coding: utf-8 -*-
# executable contracts for C08: mapping keys stay closed over the schema
from flatland import Dict, SparseDict, String, Integer, List, Form
from flatland.schema.base import Element
from flatland.schema.containers import Mapping
def snapshot(m):
    return sorted((k, id(v), v.u) for k, v in dict.items(m))
def invariant(H, m, fields, kind, required):
    keys = set(dict.keys(m))
    names = set(f.name for f in fields)
    H.check(keys <= names, 'no key outside the schema', sorted(keys))
    if kind == 'full': H.eq(keys, names, 'a full mapping holds exactly all schema keys')
    else: H.check(required <= keys, 'required keys are present', (required, keys))
    for f in fields:
        if f.name in keys:
            c = dict.__getitem__(m, f.name)
            H.check(isinstance(c, f), 'child is an element of the field schema', (f, type(c)))
            H.check(c.parent is m, 'parent of a child is the mapping', c.parent)
            H.check(m[f.name] is c, 'item access returns the child')
    H.eq(set(m.keys()), keys, 'keys()')
    H.eq(len(m), len(keys), 'len')
    H.eq(sorted(id(c) for c in m.children), sorted(id(c) for c in dict.values(m)), 'children')
def refused(H, m, what, f, *a):
    before = snapshot(m)
    r = H.call(f, *a)
    H.check(r[0] == 'exc' and not r[1].startswith('java') and r[1] in ('TypeError', 'KeyError', 'NotImplementedError'), what + ' is refused with an exception', r)
    H.eq(snapshot(m), before, what + ' changes nothing')
class PlainMapping(Mapping):
    pass
def run(H):
    H.rule = 'random operation histories on plain, full, sparse and minimum-field mappings with random schemas'
    rng = H.rng
    for k in range(H.scale(3500, 50000)):
        if not H.more(): break
        fields = []
        for n in rng.sample([u'a', u'b', u'c', u'd', u'_', u'caf\xe9'], rng.randrange(1, 5)):
            f = rng.choice([String, Integer, List.of(String), Dict.of(String.named(u'q')), SparseDict.of(String.named(u'q'))]).named(n)
            fields.append(f.using(optional=rng.random() < .5))
        kind = rng.choice(['full', 'full', 'plain', 'sparse', 'sparse', 'min', 'min'])
        if kind == 'plain':
            class M(PlainMapping): field_schema = tuple(fields)
        elif kind == 'full': M = Dict.of(*fields).using(policy=rng.choice(['duck', 'subset', 'strict']))
        elif kind == 'sparse': M = SparseDict.of(*fields)
        else: M = SparseDict.of(*fields).using(minimum_fields='required')
        required = set(f.name for f in fields if not f.optional) if kind == 'min' else set()
        k2 = 'full' if kind in ('full', 'plain') else 'sparse'
        H.group(kind)
        H.case('new', [(f.name, f.__mro__[2].__name__, f.optional) for f in fields])
        m = M(); hist = []
        invariant(H, m, fields, k2, required)
        if kind == 'min': H.eq(set(m), required, 'constructed with the required keys')
        if kind == 'sparse': H.eq(set(m), set(), 'constructed empty')
        names = [f.name for f in fields]
        for step in range(rng.randrange(1, 10)):
            n = rng.choice(names); f = [x for x in fields if x.name == n][0]
            unknown = rng.choice([u'zz', None, 3, u'a ', u''])
            op = rng.choice(['set', 'setel', 'unknown', 'del', 'delunk', 'pop', 'popunk', 'popitem', 'clear', 'setdefault', 'setdefunk', 'update', 'reset', 'setall', 'flat', 'defaults', 'get', 'may'])
            hist.append((op, n)); H.case([(x.name, x.__mro__[2].__name__, x.optional) for x in fields], hist)
            v = u'7' if isinstance(f(), (String, Integer)) else [u'x'] if isinstance(f(), List) else {u'q': u'x'}
            present = dict.__contains__(m, n)
            if op == 'set': m[n] = v; H.check(dict.__contains__(m, n) and (m[n].u == u'7' or not isinstance(f(), (String, Integer))), 'item assignment stores', m)
            elif op == 'setel':
                if k2 == 'sparse': e = f(); m[n] = e; H.check(m[n] is e, 'the element becomes the child')
            elif op == 'unknown':
                refused(H, m, 'assigning an unknown key', m.__setitem__, unknown, u'v')
                refused(H, m, 'updating an unknown key', m.update, {unknown: u'v'})
            elif op == 'del':
                if k2 == 'full' or n in required: refused(H, m, 'deletion', m.__delitem__, n)
                elif present: del m[n]; H.check(n not in m, 'deleted')
                else: refused(H, m, 'deleting a missing key', m.__delitem__, n)
            elif op == 'delunk': refused(H, m, 'deleting an unknown key', m.__delitem__, unknown)
            elif op == 'pop':
                if k2 == 'full' or n in required: refused(H, m, 'pop', m.pop, n)
                elif present:
                    c = m[n]; r = H.call(m.pop, n); H.check(r[0] == 'ok' and r[1] is c and n not in m, 'pop returns the removed child', r)
                else: refused(H, m, 'popping a missing key', m.pop, n)
            elif op == 'popunk': refused(H, m, 'popping an unknown key', m.pop, unknown)
            elif op == 'popitem': refused(H, m, 'popitem', m.popitem)
            elif op == 'clear':
                if k2 == 'full': refused(H, m, 'clear', m.clear)
                else: m.clear(); H.eq(set(m), required, 'clear leaves the required keys')
            elif op == 'setdefault':
                if k2 == 'full': refused(H, m, 'setdefault', m.setdefault, n, v)
                else: H.noexc('setdefault', m.setdefault, n, v); H.check(n in m, 'setdefault adds the key')
            elif op == 'setdefunk': refused(H, m, 'setdefault of an unknown key', m.setdefault, unknown, u'v')
            elif op == 'update': m.update({n: v}); H.check(n in m, 'update adds the key')
            elif op == 'reset': m.set_default()
            elif op == 'setall':
                r = H.call(m.set, dict((x.name, None if issubclass(x, (String, Integer)) else [] if issubclass(x, List) else {}) for x in fields))
                H.check(r == ('ok', True), 'set of every key', r); H.eq(set(m), set(names), 'set stores every key')
            elif op == 'flat': m.set_flat([(n, u'1'), (n + u'_0', u'2'), (n + u'_q', u'3'), (u'zz', u'4'), (u'', u'5')])
            elif op == 'defaults': m = M.from_defaults()
            elif op == 'may': H.check(m.may_contain(n) is True and not m.may_contain(u'zz'), 'may_contain follows the schema')
            elif op == 'get': H.check(H.call(m.get, u'zz')[0] == 'exc' or k2 == 'sparse', 'get of an unknown key')
            invariant(H, m, fields, k2, required)
    H.group('unknown keywords')
    m = Dict.of(String.named(u'a'))(); H.case('kw'); refused(H, m, 'keyword update', lambda: m.update(zz=1)); m.update(a=u'1'); H.eq(m[u'a'].u, u'1', 'keyword update')
