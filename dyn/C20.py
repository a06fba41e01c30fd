# -*- coding: utf-8 -*-
# executable contracts for C20: keyslice_pairs, slice, update_object, set_by_object
from collections import namedtuple
from flatland import Dict, SparseDict, Form, String, Integer
from flatland.util import keyslice_pairs, to_pairs
class Obj(object):
    def __init__(self, **kw): self.__dict__.update(kw)
class Slots(object):
    __slots__ = ('a', 'b')
class Base(object):
    c = u'classattr'
class Prop(Base):
    @property
    def a(self): return u'prop'
def ref(pairs, include, omit, rename, key):
    out = []
    inc = list(include) if include else None; om = list(omit) if omit else None
    ren = list(rename.items() if isinstance(rename, dict) else rename) if rename else []
    for k, v in pairs:
        if key: k = key(k)
        hit = [t for s, t in ren if s == k]
        if hit: out.append((hit[-1], v)); continue
        if inc is not None:
            if not any(k == x for x in inc): continue
        elif om is not None and any(k == x for x in om): continue
        out.append((k, v))
    return out
def spec(rng, names, maybe_both=False):
    inc = om = ren = None
    c = rng.random()
    pick = lambda: rng.choice([list, tuple, set])(rng.sample(names, rng.randrange(0, len(names))))
    if c < .35: inc = pick()
    elif c < .7: om = pick()
    elif c < .75: inc, om = [], []
    elif c < .8: inc, om = [], pick()
    if rng.random() < .5:
        ren = [(rng.choice(names), rng.choice(names + [u'new', u'other'])) for _ in range(rng.randrange(0, 3))]
        if rng.random() < .5: ren = dict(ren)
    return inc, om, ren
def run(H):
    H.rule = 'random pair sequences and include/omit/rename/key combinations against a reference written from the docstring; objects with missing, class-level, property and slot attributes'
    rng = H.rng
    names = [u'a', u'b', u'c', u'd', u'e']
    H.group('keyslice_pairs')
    for k in range(H.scale(9000, 150000)):
        pairs = [(rng.choice(names), rng.choice(range(5) + names + [u'new', u'other', None])) for _ in range(rng.randrange(6))]
        inc, om, ren = spec(rng, names)
        key = rng.choice([None, None, str, lambda x: x.upper(), lambda x: x + u'_'])
        if key and rng.random() < .5 and inc: inc = [key(x) for x in inc]
        if key and rng.random() < .5 and om: om = [key(x) for x in om]
        H.case(pairs, inc, om, ren, None if key is None else key(u'q'))
        src = rng.choice([lambda: list(pairs), lambda: iter(pairs), lambda: tuple(pairs)])()
        r = H.call(lambda: list(keyslice_pairs(src, include=inc, omit=om, rename=ren, key=key)))
        H.eq(r, ('ok', ref(pairs, inc, om, ren, key)), 'selected pairs')
    H.case('both'); H.raises(TypeError, 'include and omit together', lambda: list(keyslice_pairs([(1, 2)], include=[1], omit=[2])))
    H.case('generators'); H.eq(list(keyslice_pairs([(1, 2), (3, 4)], include=iter([1]))), [(1, 2)], 'include as an iterator'); H.eq(list(keyslice_pairs([(1, 2), (3, 4)], omit=iter([1]))), [(3, 4)], 'omit as an iterator'); H.eq(list(keyslice_pairs([(1, 2), (3, 4)], rename=iter([(1, 9)]), omit=[1])), [(9, 2), (3, 4)], 'rename as an iterator')
    H.group('mappings')
    for k in range(H.scale(5000, 80000)):
        if not H.more(): break
        fn = rng.sample(names, rng.randrange(1, 5))
        T = rng.choice([Dict, SparseDict])
        M = T.of(*[rng.choice([String, Integer]).named(n) for n in fn]).using(policy=rng.choice(['subset', 'duck']))
        el = M()
        for n in fn:
            if rng.random() < .8: el[n] = rng.choice([u'1', u'2', u'x'])
        inc, om, ren = spec(rng, names)
        vals = dict((n, el[n].value) for n in el)
        key = rng.choice([None, None, str, lambda x: x + u'_'])
        H.case('slice', fn, vals, inc, om, ren, None if key is None else key(u'q'))
        targets = [b for a, b in ref([(n, n) for n in vals], inc, om, ren, key)]
        want = ref(list(dict.items(el)), inc, om, ren, key)
        keys = [a for a, b in want]
        if len(set(keys)) == len(keys):
            H.eq(H.call(el.slice, include=inc, omit=om, rename=ren, key=key), ('ok', dict((a, b.value) for a, b in want)), 'slice')
            o = Obj(a=u'old', z=u'keep', new=u'n0'); before = dict(o.__dict__)
            H.case('update_object', fn, vals, inc, om, ren)
            want2 = ref(list(dict.items(el)), inc, om, ren, str)
            r = H.call(el.update_object, o, include=inc, omit=om, rename=ren)
            exp = dict(before); exp.update((a, b.value) for a, b in want2)
            if len(set(a for a, b in want2)) == len(want2): H.check(r == ('ok', None), 'update_object', r); H.eq(o.__dict__, exp, 'exactly the selected attributes are set')
            H.eq(dict((n, el[n].value) for n in el), vals, 'the element is unchanged')
        # set_by_object
        held = list(dict.keys(el))
        attrs = dict((n, rng.choice([u'7', 8, u'y', None])) for n in rng.sample(names + [u'new', u'other', u'zz'], rng.randrange(0, 6)))
        o = Obj(**dict((str(n), v) for n, v in attrs.items()))
        H.case('set_by_object', T.__name__, fn, vals, attrs, inc, om, ren)
        # which attribute reaches which field (no collisions)
        rl = dict(ren.items() if isinstance(ren, dict) else ren) if ren else {}
        cand = set(held) - set(om or ()) | set(s for s, t in rl.items() if t in held)
        sel = [(a, b) for b, a in ref([(n, n) for n in sorted(cand) if n in attrs], inc, om, ren, None)]   # (attribute, field)
        sel = [(a, f) for a, f in sel if f in held]
        fs = [f for a, f in sel]
        if len(set(fs)) == len(fs):
            snap = dict(o.__dict__)
            r = H.call(el.set_by_object, o, include=inc, omit=om, rename=ren)
            H.check(r == ('ok', None), 'set_by_object', r)
            H.eq(dict(o.__dict__), snap, 'the object is unchanged')
            got = dict(sel_ for sel_ in [(f, attrs[a]) for a, f in sel])
            for n, S in zip(fn, M.field_schema):
                refel = S()
                if n in got:
                    refel.set(got[n]); H.check(n in el and el[n].value == refel.value and el[n].u == refel.u, 'the selected attribute is transferred', (n, n in el and el[n].value, refel.value))
                elif n in held and T is Dict: H.check(el[n].value is None, 'other fields are reset', (n, el[n].value))
    H.group('objects')
    D = Dict.of(String.named(u'a'), String.named(u'b'), String.named(u'c'))
    s = Slots(); s.a = u'1'; d = D(); H.case('slots'); d.set_by_object(s); H.eq(d.value, {u'a': u'1', u'b': None, u'c': None}, 'unset slots are ignored')
    d.update_object(s, include=['a', 'b']); H.check(s.a == u'1' and s.b is None, 'slots are written', (s.a, s.b))
    H.case('property'); d = D(); d.set_by_object(Prop()); H.eq(d.value, {u'a': u'prop', u'b': None, u'c': u'classattr'}, 'properties and class attributes count')
    H.case('from_object'); d = D.from_object(Prop(), rename=[(u'c', u'b')], omit=[u'a']); H.eq(d.value, {u'a': None, u'b': u'classattr', u'c': None}, 'from_object with rename and omit')
    H.case('both'); H.raises(TypeError, 'include and omit together', d.slice, include=['a'], omit=['b'])
