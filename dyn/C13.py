# -*- coding: utf-8 -*-
# executable contracts for C13: deriving schemas
from flatland import Array, Boolean, Compound, DateYYYYMMDD, Dict, Enum, Form, Integer, JoinedString, List, MultiValue, SparseDict, String
from flatland.schema.base import Element
from flatland.schema.properties import Properties
from flatland.validation import Present, ValueIn, Converted
import gen
ATTRS = ['name', 'optional', 'validators', 'descent_validators', 'default', 'default_factory', 'strip', 'signed', 'format', 'policy', 'member_schema', 'field_schema', 'prune_empty', 'maximum_set_flat_members',
         'minimum_fields', 'valid_values', 'separator', 'separator_regex', 'label', 'ugettext', 'flattenable', 'children_flattenable', 'true', 'false', 'value', 'u', 'child_type']
def snap(c):
    """everything observable about a schema"""
    out = {}
    for a in ATTRS:
        v = getattr(c, a, 'absent')
        out[a] = list(v) if isinstance(v, (list, tuple)) else v
    out['validators id'] = id(getattr(c, 'validators', None)); out['props'] = dict(c.properties); out['bases'] = c.__bases__
    out['dict'] = sorted(k for k in c.__dict__ if not k.startswith('__') and not k.startswith('_compound'))
    if issubclass(c, DateYYYYMMDD): out.pop('field_schema'); out.pop('dict')      # filled in when the first element is made
    return out
def diff(a, b): return sorted(k for k in set(a) | set(b) if a.get(k, 'absent') != b.get(k, 'absent'))
def el_snap(e): return (gen.describe(e), e.name, e.optional, list(e.validators), dict(e.properties), type(e))
FNS = [Present(), Converted(), ValueIn(valid_options=[1]), lambda e, s: True, lambda e, s: None]
class PropForm(Form):
    a = String
def step(rng, H, c):
    """one derivation: (description, thunk, expected attribute values)"""
    ops = ['named', 'using', 'validated_by', 'including', 'props', 'using_props']
    if issubclass(c, (Array, List, Dict)) and not issubclass(c, DateYYYYMMDD): ops += ['descent', 'including_descent']
    if issubclass(c, (Array, List)): ops += ['of', 'of']
    if issubclass(c, Dict): ops += ['fields', 'fields', 'badfields']
    if issubclass(c, Enum): ops += ['valued', 'valued']
    op = rng.choice(ops)
    if op == 'named':
        n = rng.choice([u'q', None, 'bytes', 5, u'']); return op, (n,), lambda: c.named(n), {'name': None if n is None else unicode(n), 'label': None if n is None else unicode(n)}
    if op == 'using':
        pool = {'optional': not c.optional, 'default': u'd', 'label': u'L', 'ugettext': None, 'name': u'viausing', 'flattenable': False}
        if issubclass(c, Dict): pool['policy'] = 'strict'
        if issubclass(c, List): pool['maximum_set_flat_members'] = 3
        kw = dict((k, pool[k]) for k in rng.sample(sorted(pool), rng.randrange(0, 3)))
        want = dict(kw)
        if rng.random() < .4:
            vs = [rng.choice(FNS) for _ in range(rng.randrange(3))]; src = rng.choice([list, tuple])(vs); kw['validators'] = src; want['validators'] = list(vs)
        if 'name' in kw and 'label' not in kw: want['label'] = kw['name']
        return op, sorted(kw), lambda: c.using(**kw), want
    if op == 'validated_by':
        vs = [rng.choice(FNS) for _ in range(rng.randrange(4))]; return op, len(vs), lambda: c.validated_by(*vs), {'validators': vs}
    if op == 'descent':
        vs = [rng.choice(FNS) for _ in range(rng.randrange(4))]; return op, len(vs), lambda: c.descent_validated_by(*vs), {'descent_validators': vs}
    if op in ('including', 'including_descent'):
        attr = 'validators' if op == 'including' else 'descent_validators'
        vs = [rng.choice(FNS) for _ in range(rng.randrange(3))]; have = list(getattr(c, attr))
        pos = rng.choice([None, 0, 1, -1, 2, -2, len(have)])
        if pos is not None and pos < -len(have) - 1: pos = -1
        p = len(have) if pos is None else pos if pos >= 0 else len(have) + 1 + pos
        want = have[:p] + vs + have[p:]; kw = {} if pos is None else {'position': pos}
        f = c.including_validators if op == 'including' else c.including_descent_validators
        return op, (len(have), len(vs), pos), lambda: f(*vs, **kw), {attr: want}
    if op == 'props':
        kw = dict((k, rng.randrange(9)) for k in rng.sample(['p', 'q', 'r'], rng.randrange(0, 3))); form = rng.choice(['kw', 'dict', 'pairs'])
        want = dict(c.properties); want.update(kw)
        return op, (form, kw), (lambda: c.with_properties(**kw)) if form == 'kw' else (lambda: c.with_properties(dict(kw))) if form == 'dict' else (lambda: c.with_properties(kw.items())), {'props': want}
    if op == 'using_props':
        kw = {'z': rng.randrange(5)}; return op, kw, lambda: c.using(properties=kw), {'props': kw}
    if op == 'of':
        n = rng.randrange(1, 3); ms = [gen.scalar(rng, x) for x in (u'm1', u'm2')[:n]]
        return op, n, lambda: c.of(*ms), {'member_schema': ms[0] if n == 1 else 'dict of', 'ms': ms}
    if op == 'fields':
        fs = [gen.scalar(rng, x) for x in rng.sample([u'f1', u'f2', u'f3', u'f4'], rng.randrange(0, 4))]; return op, [f.name for f in fs], lambda: c.of(*fs), {'field_schema': fs}
    if op == 'badfields': return op, (), None, None
    if op == 'valued':
        vs = [rng.choice([u'x', u'y', 3, None]) for _ in range(rng.randrange(4))]; return op, vs, lambda: c.valued(*vs), {'valid_values': vs}
def run(H):
    H.rule = 'random chains and trees of derivations over every schema kind; after each one, every schema and element made so far is compared with its snapshot, and the new one with the request'
    rng = H.rng
    roots = [String, Integer, Boolean, Enum, Enum.valued(u'x', u'y'), Dict, SparseDict, List, Array, MultiValue, JoinedString, DateYYYYMMDD, PropForm]
    H.group('derivation trees')
    for k in range(H.scale(1100, 30000)):
        if not H.more(): break
        root = rng.choice(roots).named(rng.choice([u'r', None])); pool = [root]
        if issubclass(root, (List, Array)) and not issubclass(root, JoinedString): pool[0] = root = root.of(String)
        if root.__mro__[1] is Dict or root.__mro__[1] is SparseDict: pool[0] = root = root.of(String.named(u'f0'))
        if rng.random() < .5: pool[0] = root = root.validated_by(FNS[3])
        snaps = [snap(root)]; els = []; log = [root.__mro__[2].__name__]
        for j in range(rng.randrange(1, 8)):
            i = rng.randrange(len(pool)); c = pool[i]
            op, desc, f, want = step(rng, H, c); log.append((i, op, desc)); H.case(log)
            if op == 'badfields':
                H.raises(TypeError, 'duplicate field names', c.of, String.named(u'a'), Integer.named(u'a')); H.raises(TypeError, 'element instances as fields', c.of, String.named(u'a')()); f = None
            else:
                before = snap(c)
                ok, d = H.noexc('deriving', f)
                if not ok: break
                if not H.check(isinstance(d, type) and d is not c and d.__bases__ == (c,), 'a new direct subclass of the receiver', (d, getattr(d, '__bases__', None))): break
                after = snap(d)
                want = dict(want); ms = want.pop('ms', None)
                if 'name' in want and want.get('label') == want['name'] and isinstance([m.__dict__['label'] for m in c.__mro__ if 'label' in m.__dict__][0], basestring): want.pop('label')
                if want.get('member_schema') == 'dict of':
                    H.check(issubclass(d.member_schema, Dict) and list(d.member_schema.field_schema) == ms, 'several members are held by a Dict of them'); want['member_schema'] = d.member_schema
                for a, v in want.items(): H.check(after.get(a) == v, 'the requested change', (a, after.get(a), v))
                other = [x for x in diff(before, after) if x not in want and x not in ('validators id', 'bases', 'dict')]
                H.check(not other, 'only what was requested differs', other)
                if op in ('using', 'validated_by', 'including') and 'validators' in want: H.check(d.validators is not c.validators, 'its own list of validators')
                pool.append(d); snaps.append(after)
            if rng.random() < .4:
                r = H.call(pool[-1])
                if r[0] == 'ok': els.append((r[1], el_snap(r[1])))
            for c2, s2 in zip(pool, snaps):
                if not H.check(snap(c2) == s2, 'no other schema changes', (pool.index(c2), diff(s2, snap(c2)))): break
            for e, s in els: H.check(el_snap(e) == s, 'existing elements do not change', (s, el_snap(e)))
    H.group('copies and rejections')
    vs = [FNS[0], FNS[3]]
    H.case('using'); c = String.using(validators=vs); vs.append(FNS[1]); H.eq(len(c.validators), 2, 'the caller\'s list is copied')
    H.case('instance'); vs = [FNS[0]]; e = String(validators=vs); vs.append(1); H.eq(len(e.validators), 1, 'the caller\'s list is copied'); H.eq(list(String.validators), [], 'the class is unchanged')
    H.case('props'); d = {'a': 1}; c = String.using(properties=d); d['a'] = 2; H.eq(dict(c.properties), {'a': 1}, 'the caller\'s mapping is copied')
    for cls in (String, Integer, Dict, List, Array, Enum, Form, JoinedString, DateYYYYMMDD):
        H.case(cls.__name__)
        H.raises(TypeError, 'unknown attribute', cls.using, bogus=1); H.raises(TypeError, 'unknown attribute among known', cls.using, optional=True, bogus=1)
        H.check(not hasattr(cls, 'bogus'), 'and is not set')
        H.raises(TypeError, 'validator types', cls.validated_by, Present); H.raises(TypeError, 'validator types among instances', cls.validated_by, FNS[0], Present)
        H.raises(TypeError, 'unknown keyword', cls.including_validators, FNS[0], bogus=1)
        if cls is not DateYYYYMMDD: H.raises(TypeError, 'unknown instance attribute', lambda: cls(bogus=1))
        if issubclass(cls, (Dict, List, Array)):
            H.raises(TypeError, 'descent validator types', cls.descent_validated_by, Present); H.raises(TypeError, 'descent validator types', cls.descent_validated_by, FNS[3], Present)
            H.raises(TypeError, 'unknown keyword', cls.including_descent_validators, FNS[0], bogus=1)
            H.raises(TypeError, 'element instances as types', cls.of, String()); H.raises(TypeError, 'element instances as types', cls.of, Integer.named(u'k'), String.named(u's')())
        if issubclass(cls, (List, Array)): H.raises(TypeError, 'no members', cls.of)
        if issubclass(cls, Dict):
            for names in ([u'a', u'a'], [u'a', u'b', u'a'], [None, None], [u'', u'']): H.raises(TypeError, 'duplicate field names', cls.of, *[String.named(n) for n in names])
    H.case('siblings'); A = String.validated_by(FNS[3]); B1 = A.including_validators(FNS[0]); B2 = A.including_validators(FNS[1], position=0)
    H.eq((A.validators, B1.validators, B2.validators), ([FNS[3]], [FNS[3], FNS[0]], [FNS[1], FNS[3]]), 'siblings are independent')
    H.case('static'); f = lambda el: 7; H.eq(Integer.using(default_factory=f)().default_factory(None) if False else Integer.using(default_factory=f).from_defaults().value, 7, 'functions are stored unbound')
    for cls in (String, Integer, Dict.of(String.named(u'a')), List.of(String), Array.of(Integer), Enum.valued(u'x'), JoinedString, PropForm):
        H.case(('overrides', cls.__name__))
        for k in ('_bogus', '__bogus', 'bogus_', 'Name'):
            H.raises(TypeError, 'unknown attribute', cls.using, **{k: 1}); H.raises(TypeError, 'unknown attribute of an element', lambda: cls(**{k: 1})); H.check(not hasattr(cls, k), 'and is not set')
        before = snap(cls); other = cls(); o = el_snap(other)
        e = cls(optional=True, default=u'zz', label=u'mine', name=u'nm', validators=[FNS[0]])
        H.eq((e.optional, e.default, e.label, e.name, e.validators), (True, u'zz', u'mine', u'nm', [FNS[0]]), 'an override is the element\'s')
        e.errors.append(u'x'); H.eq((e.errors, e.warnings, other.errors, cls().errors), ([u'x'], [], [], []), 'messages are the element\'s own')
        H.check(snap(cls) == before and el_snap(other) == o, 'neither the class nor another element changes', diff(before, snap(cls)))
        d = cls.with_properties(a=1); e = d(); e.properties['x'] = 1
        H.eq((dict(d.properties).get('x'), dict(d().properties).get('x'), dict(d.properties).get('a'), e.properties['x'], e.properties['a']), (None, None, 1, 1, 1), 'properties written on an element stay there')
        d2 = d.with_properties(b=2); d2.properties['c'] = 3
        H.eq((dict(d.properties), dict(d2.properties)), (dict(cls.properties, a=1), dict(cls.properties, a=1, b=2, c=3)), 'properties added to a derivative stay there')
        for m in ('named', 'using', 'validated_by', 'including_validators', 'with_properties', 'of', 'valued', 'descent_validated_by', 'including_descent_validators'):
            if hasattr(cls, m): H.raises(AttributeError, 'declarative calls belong to schemas', lambda: getattr(cls(), m))
