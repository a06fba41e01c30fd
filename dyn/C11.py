# -*- coding: utf-8 -*-
# executable contracts for C11: fq_name and el
import gen
from flatland import Dict, List, String, Array, MultiValue, SparseDict, DateYYYYMMDD, Integer
from flatland.schema.base import Root
def reach(el, path=()):
    """(element, keys from the root) by names and indexes on the physical tree"""
    out = [(el, path)]
    if isinstance(el, (Dict, DateYYYYMMDD)):
        for k in dict.keys(el): out.extend(reach(dict.__getitem__(el, k), path + (k,)))
    elif isinstance(el, list):
        for i, m in enumerate(gen.kids(el)): out.extend(reach(m, path + (u'%d' % i,)))
    return out
def run(H):
    H.rule = 'random trees (lists in lists, arrays, weird names, unnamed members) x separators; every element looked up from other elements; missing names'
    rng = H.rng
    for k in range(H.scale(2500, 40000)):
        if not H.more(): break
        root = gen.element(rng, 4, rng.choice([None, u'r', u'a', u'0']), compound=True) if rng.random() < .85 else odd(rng)
        sep = rng.choice([u'.', u'.', u'/', u'::', u'|'])
        H.group(type(root).__name__); H.case(gen.describe(root), sep)
        el_list = reach(root)
        for el, keys in el_list[:40]:
            want = sep + sep.join(keys)
            r = H.call(el.fq_name, sep)
            if not H.check(r == ('ok', want), 'fully qualified name', (r, want)): continue
            for other, _ in ([(root, 0), (el, 0)] + [rng.choice(el_list)]):
                g = H.call(other.el, r[1], sep)
                H.check(g[0] == 'ok' and g[1] is el, 'the name leads back to the element', (want, g))
            it = [Root] + list(keys)
            for form in (list, tuple, iter):
                g = H.call(el_list[-1][0].el, form(it), sep); H.check(g[0] == 'ok' and g[1] is el, 'an iterable of names behaves like the joined string', (keys, g))
            if keys:
                g = H.call(root.el, sep.join(keys), sep); H.check(g[0] == 'ok' and g[1] is el, 'relative lookup', (keys, g))
                g = H.call(root.el, list(keys), sep); H.check(g[0] == 'ok' and g[1] is el, 'relative lookup by iterable', (keys, g))
            n = len(gen.kids(el)) if isinstance(el, list) else 0
            for bad in ([u'zz', u'nope'] if not n else [u'zz', u'%d' % n, u'-%d' % (n + 1)]):
                name = (want if want != sep else u'') + sep + bad
                g = H.call(root.el, name, sep); H.check(g == ('exc', 'KeyError'), 'a missing name raises KeyError', (name, g))
            if el is not root and keys:
                g = H.call(el.el, u'zz' + sep + u'yy', sep); H.check(g == ('exc', 'KeyError'), 'a missing relative name raises KeyError', g)
    separators(H)
    H.group('default separator'); d = Dict.named(u'p').of(Integer.named(u'x'), List.named(u'l').of(Dict.of(String.named(u's'))))({u'l': [{}, {}]})
    H.case('docs'); H.eq([d.fq_name(), d[u'x'].fq_name(), d[u'l'][1][u's'].fq_name()], [u'.', u'.x', u'.l.1.s'], 'default separator')
    H.check(d.el(u'.') is d and d.el(u'x') is d[u'x'] and d[u'x'].el(u'.l.1.s') is d[u'l'][1][u's'] and d[u'l'].el(u'0.s') is d[u'l'][0][u's'], 'documented lookups')
    H.case('empty iterable'); H.raises(KeyError, 'an empty iterable names nothing', d.el, [])
def odd(rng):
    S = Dict.of(List.named(u'l').of(List.of(Array.of(String))), Array.named(u'arr').of(String.named(u'm')), MultiValue.named(u'mv').of(Integer), SparseDict.named(u'caf\xe9').of(String.named(u'x y')), DateYYYYMMDD.named(u'date'))
    e = S({u'l': [[[u'a', u'b'], []], []], u'arr': [u'a', u'a', u'b'], u'mv': [1, 1, 2], u'caf\xe9': {u'x y': u'1'}}); return e
SEPS = [u'.', u'->', u'::', u'a.', u'.a', u'abc', u'_:_', u'=>=']
def clean(keys, sep):
    """the separator occurs neither in the names nor across their joins, and no name is empty"""
    return all(keys) and all(sep not in k for k in keys) and (sep + sep.join(keys)).split(sep) == [u''] + list(keys)
def separators(H):
    H.group('separators of several characters, names made of their characters'); rng = H.rng
    for k in range(H.scale(400, 6000)):
        if not H.more(): break
        sep = rng.choice(SEPS); chars = sorted(set(sep)) + [u'a', u'x', u'_']
        def name(): return u''.join(rng.choice(chars) for _ in range(rng.randrange(1, 5)))
        def tree(d):
            if d == 0: return String.named(name())
            if rng.random() < .2: return List.named(name()).of(tree(d - 1)).using(default=2)
            kids = {}
            for _ in range(rng.randrange(1, 5)): c = tree(rng.randrange(d)); kids[c.name] = c
            return Dict.named(name()).of(*kids.values())
        root = Dict.of(tree(2), String.named(u'@')).from_defaults(); els = reach(root)
        H.case(sep, sorted(keys for _, keys in els))
        for el, keys in els:
            if not clean(keys, sep): continue
            want = sep + sep.join(keys); r = H.call(el.fq_name, sep)
            if not H.check(r == ('ok', want), 'fully qualified name', (r, want)): continue
            g = H.call(rng.choice(els)[0].el, want, sep); H.check(g[0] == 'ok' and g[1] is el, 'the name leads back to the element', (want, g))
            if keys and not sep.join(keys).startswith(sep): g = H.call(root.el, sep.join(keys), sep); H.check(g[0] == 'ok' and g[1] is el, 'relative lookup', (keys, g))
