# -*- coding: utf-8 -*-
# executable contracts for C12: Properties overlays
import random
from flatland import String, Dict, Integer, Form
from flatland.schema.properties import Properties
DEL = object()
KEYS = [u'a', u'b', 'c', 1, None]
class Model(object):
    """frames: each class has its own overlay; the view is the nearest-first merge up to a root descriptor"""
    def __init__(self, parents, own=None, root=False):
        self.parents, self.frame, self.root, self.plain = parents, dict(own or {}), root, None
        self.mro, self.instance = None, False
    def view(self):
        if self.plain is not None: return dict(self.plain)
        out, hidden = {}, set()
        for f in self.frames():
            for k, v in f.items():
                if k in out or k in hidden: continue
                if v is DEL: hidden.add(k)
                else: out[k] = v
        return out
    def frames(self):
        for m in self.mro:
            yield m.frame
            if m.root: break
    def own(self): return self.plain if self.plain is not None else self.frame
    def drop(self, k):
        if self.plain is not None: del self.plain[k]
        else: self.frame[k] = DEL
    def clear(self):
        if self.plain is not None: self.plain.clear()
        elif self.instance:
            self.frame.clear()
            for k in self.view(): self.frame[k] = DEL
        else:
            for k in self.view(): self.frame[k] = DEL
def agree(H, obj, model, who):
    want = model.view(); p = obj.properties
    H.check(dict(p.items()) == want, '%s: items' % who, (dict(p.items()), want))
    H.eq(len(list(p.items())), len(want), '%s: each key once' % who)
    H.eq(dict(p.iteritems()), want, '%s: iteritems' % who)
    H.eq(sorted(map(repr, p.keys())), sorted(map(repr, want)), '%s: keys' % who); H.eq(sorted(map(repr, p.iterkeys())), sorted(map(repr, want)), '%s: iterkeys' % who)
    H.eq(sorted(map(repr, p.values())), sorted(map(repr, want.values())), '%s: values' % who); H.eq(sorted(map(repr, p.itervalues())), sorted(map(repr, want.values())), '%s: itervalues' % who)
    H.check(type(p.copy()) is dict and p.copy() == want, '%s: copy' % who); H.check(bool(p) is bool(want), '%s: truth' % who)
    H.check((p == want) is True and (p != want) is False, '%s: equality' % who); o = dict(want); o['zz'] = 1; H.check((p == o) is False and (p != o) is True, '%s: inequality' % who)
    for k in KEYS + ['zz']:
        H.check((k in p) is (k in want), '%s: contains %r' % (who, k), want)
        H.eq(H.call(lambda: p[k]), ('ok', want[k]) if k in want else ('exc', 'KeyError'), '%s: item %r' % (who, k))
        H.eq(p.get(k), want.get(k), '%s: get' % who); H.eq(p.get(k, 9), want.get(k, 9), '%s: get with default' % who)
def step(H, rng, obj, m):
    p = obj.properties; want = m.view(); k = rng.choice(KEYS); v = rng.choice([0, 1, None, u'x', [1], 5])
    op = rng.choice(['set', 'set', 'del', 'update', 'updatekw', 'pop', 'popd', 'setdefault', 'clear'])
    if op == 'set': p[k] = v; m.own()[k] = v
    elif op == 'del':
        r = H.call(p.__delitem__, k)
        if k in want: H.check(r == ('ok', None), 'deletion', r); m.drop(k)
        else: H.check(r == ('exc', 'KeyError'), 'deleting a missing key', r)
    elif op == 'update':
        d = dict((rng.choice(KEYS), rng.randrange(9)) for _ in range(3)); p.update(rng.choice([d, d.items()])); m.own().update(d)
    elif op == 'updatekw': p.update({u'a': 3}, c=4); m.own().update({u'a': 3, 'c': 4})
    elif op == 'pop':
        r = H.call(p.pop, k); H.eq(r, ('ok', want[k]) if k in want else ('exc', 'KeyError'), 'pop')
        if k in want: m.drop(k)
    elif op == 'popd':
        r = H.call(p.pop, k, 77); H.eq(r, ('ok', want.get(k, 77)), 'pop with default')
        if k in want: m.drop(k)
    elif op == 'setdefault':
        r = H.call(p.setdefault, k, v); H.eq(r, ('ok', want.get(k, v)), 'setdefault')
        if k not in want: m.own()[k] = v
    elif op == 'clear': p.clear(); m.clear()
    return op, k
def c3(models):
    pass
def run(H):
    H.rule = 'random class hierarchies (linear, diamond, re-declared properties), random operations on random classes and elements; every class and element compared with a reference after each step'
    rng = H.rng
    for k in range(H.scale(900, 14000)):
        if not H.more(): break
        H.group('histories')
        objs = []          # (name, object, model)
        byc = {}
        base = rng.choice([String, Integer])
        if rng.random() < .5:
            init = dict((rng.choice([u'a', u'b']), rng.randrange(9)) for _ in range(rng.randrange(3)))
            class A(base): properties = Properties(init)
        else:
            init = {}
            A = base.using(properties=Properties())
        H.case('root', init)
        def add(c, own=None, root=False):
            m = Model([], own, root); byc[c] = m
            m.mro = [byc[x] for x in c.__mro__ if x in byc]
            objs.append((c.__name__ + str(len(objs)), c, m)); return m
        add(A, init, True); hist = []
        for c, m in list(byc.items()): pass
        for s in range(rng.randrange(2, 16)):
            r = rng.random()
            classes = [(n, o, m) for n, o, m in objs if isinstance(o, type)]
            if r < .12:
                n, c, m = rng.choice(classes); C = c.named(u'n'); add(C); hist.append(('derive', n))
            elif r < .17:
                n, c, m = rng.choice(classes); C = c.with_properties(a=rng.randrange(9)); add(C, {'a': C.properties['a']}); hist.append(('with_properties', n))
            elif r < .22:
                n, c, m = rng.choice(classes); C = c.using(properties={u'b': 6}); add(C, {u'b': 6}, True); hist.append(('redeclare', n))
            elif r < .27 and len(classes) > 2:
                (n1, c1, _), (n2, c2, _) = rng.sample(classes, 2)
                try: C = type('M', (c1, c2), {})
                except TypeError: continue
                if any(x in byc and byc[x].root and x is not A for x in C.__mro__): continue
                add(C); hist.append(('combine', n1, n2))
            elif r < .40:
                n, c, m = rng.choice(classes)
                if rng.random() < .2: d = {u'own': 1}; e = c(properties=d); em = Model([]); em.plain = dict(d)
                else:
                    e = c(); em = Model([]); em.mro = [em] + m.mro; em.instance = True
                objs.append(('el%d' % len(objs), e, em)); hist.append(('instance', n))
            else:
                n, o, m = rng.choice(objs); H.current = ('histories', init, hist, n); hist.append((step(H, rng, o, m), n))
            H.case(init, hist)
            for n, o, m in objs: agree(H, o, m, n)
    H.group('form classes')
    class F1(Form): x = String
    class F2(F1): y = String
    H.case('forms'); F1.properties[u'k'] = 1; H.eq(F2.properties[u'k'], 1, 'inherited'); F2.properties[u'k'] = 2; H.eq((F1.properties[u'k'], F2.properties[u'k'], Form.properties.get(u'k')), (1, 2, None), 'overlaid only below')
    e, f = F2(), F2(); e.properties[u'k'] = 3; H.eq((f.properties[u'k'], F2.properties[u'k'], e.properties[u'k']), (2, 2, 3), 'elements are independent')
    del e.properties[u'k']; H.check(u'k' not in e.properties and f.properties[u'k'] == 2 and F2.properties[u'k'] == 2, 'deletion hides at its level only')
