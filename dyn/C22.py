# -*- coding: utf-8 -*-
# executable contracts for C22: flat import and export
import operator
import gen
from flatland import Array, Boolean, Date, DateYYYYMMDD, Dict, Enum, Form, Integer, JoinedString, List, MultiValue, SparseDict, String
from flatland.schema.containers import ListSlot
def join(sep, *parts): return sep.join(p for p in parts if p is not None)
def index_of(rest, sep):
    n = 0
    while n < len(rest) and rest[n] in u'0123456789': n += 1
    if n and (n == len(rest) or rest[n:].startswith(sep)): return rest[:n]
def expect(S, path, pairs, sep):
    """the tree an import of pairs must build, from full keys only: ('s', text or None) / ('a', texts) / ('l', [trees]) / ('d', {name: tree})"""
    if issubclass(S, (Dict,)):
        out = {}
        for f in S.field_schema:
            p = join(sep, path, f.name)
            if issubclass(S, SparseDict) and (S.minimum_fields is None or f.optional) and not any(k == p or k.startswith(p + sep) for k, v in pairs): continue
            out[f.name] = expect(f, p, pairs, sep)
        return 'd', out
    if issubclass(S, DateYYYYMMDD): return 'd', dict((n, expect(Integer.using(format=fm).named(n), join(sep, path, n), pairs, sep)) for n, fm in ((u'year', u'%04i'), (u'month', u'%02i'), (u'day', u'%02i')))
    if issubclass(S, List):
        pre = path + sep if path else u''
        groups = {}
        for k, v in pairs:
            if S.prune_empty and v == u'': continue
            if not k.startswith(pre): continue
            i = index_of(k[len(pre):], sep)
            if i is not None: groups.setdefault(int(i), []).append((k, v))
        M = S.member_schema
        idx = sorted(groups) if S.prune_empty else range(max(groups) + 1) if groups else []
        return 'l', [expect(M, join(sep, path, u'%d' % i, M.name), groups.get(i, []), sep) for i in idx]
    if issubclass(S, Array) and not issubclass(S, JoinedString):
        M = S.member_schema; p = join(sep, path, M.name) or u''
        return 'a', [text(M, v) for k, v in pairs if k == p and not (S.prune_empty and v == u'')]
    hit = [v for k, v in pairs if k == (path or u'')]
    return 's', text(S, hit[0]) if hit else text(S, None)
def text(S, v):
    e = S()
    if v is not None: e.set(v)
    return e.u
def actual(el):
    if isinstance(el, (DateYYYYMMDD, Dict)): return 'd', dict((k, actual(v)) for k, v in dict.items(el))
    if isinstance(el, List): return 'l', [actual(m) for m in gen.kids(el)]
    if isinstance(el, Array) and not isinstance(el, JoinedString): return 'a', [m.u for m in gen.kids(el)]
    return 's', el.u
def keys(S, path, sep, rng, depth=0):
    """keys that reach into the schema"""
    if issubclass(S, Dict): return [k for f in S.field_schema for k in keys(f, join(sep, path, f.name), sep, rng)]
    if issubclass(S, DateYYYYMMDD): return [join(sep, path, n) for n in (u'year', u'month', u'day')]
    if issubclass(S, List): return [k for i in rng.sample([0, 1, 2, 3, 11], 3) for k in keys(S.member_schema, join(sep, path, u'%d' % i, S.member_schema.name), sep, rng)]
    if issubclass(S, Array) and not issubclass(S, JoinedString): return [join(sep, path, S.member_schema.name)] * 2
    return [path or u'']
def label(el, sep):
    """flattened name from the physical parent chain"""
    out = [el.name]; p = el.parent
    while p is not None: out.append(p.name); p = p.parent
    return sep.join(x for x in reversed(out) if x is not None)
def flat_elements(el):
    """elements an export lists, in breadth-first order"""
    out = [el] if el.flattenable else []
    q = list(gen.kids(el)) if el.children_flattenable else []
    while q:
        x = q.pop(0)
        if x.flattenable: out.append(x)
        if x.children_flattenable: q.extend(gen.kids(x))
    return out
def rt_schema(rng, depth, name, top=True):
    """schemas whose exports can be restored: every list member exports something"""
    r = rng.random()
    if depth <= 0 or r < .35:
        if rng.random() < .25 and name is not None:
            return rng.choice([Array, MultiValue]).named(name).of(gen.scalar(rng, rng.choice([None, u'm']))).using(prune_empty=False) if top else gen.scalar(rng, name)
        if rng.random() < .2: return rng.choice([DateYYYYMMDD, JoinedString]).named(name)
        return gen.scalar(rng, name)
    if r < .6: return List.named(name).of(rt_schema(rng, depth - 1, rng.choice([None, u'm']), False)).using(prune_empty=False) if top else Dict.named(name).of(gen.scalar(rng, u'p'), rt_schema(rng, depth - 1, u'q'))
    names = rng.sample([u'a', u'b', u'c', u'x', u'ab', u'caf\xe9'], rng.randrange(1, 4))
    return Dict.named(name).of(*([gen.scalar(rng, u'first')] + [rt_schema(rng, depth - 1, n) for n in names]))
def run(H):
    H.rule = 'random schemas x random pairs around the keys that reach into them, compared with a reference that looks at full keys only; export compared with a walk over the physical tree; export-import round trips'
    rng = H.rng
    H.group('import')
    for k in range(H.scale(5000, 80000)):
        if not H.more(): break
        S = gen.schema(rng, rng.randrange(0, 4), rng.choice([None, u'r', u'x', u'a']), compound=True)
        sep = rng.choice([u'_', u'_', u'.', u'__', u'|'])
        ks = keys(S, S.name, sep, rng) or [u'x']
        def key():
            k = rng.choice(ks); r = rng.random()
            if r < .65: return k
            if r < .75: return k + rng.choice([u'x', u'\n', u' ', sep + u'x', u'0'])
            if r < .85: return rng.choice([u'', u'zz', S.name or u'q', u'0', u'r', u'x' + k, k[1:], k[:-1], k.split(sep)[0], k.split(sep)[0] + sep, sep.join(k.split(sep)[:2])])
            return k.replace(sep, rng.choice([u'_', u'.', sep + sep]))
        pairs = [(key(), rng.choice([u'', u'1', u'2', u'on', u'2009-10-11', u' z ', u'a,b'])) for _ in range(rng.randrange(9))]
        if any(p[0].endswith(sep) or [x for x in p[0].split(sep) if x[:1] == u'0' and len(x) > 1] for p in pairs): continue
        src = dict(pairs) if rng.random() < .15 else list(pairs)
        if isinstance(src, dict): pairs = list(src.items())
        H.case(schema_text(S), sep, pairs)
        el = S(); r = H.call(el.set_flat, src, sep)
        if not H.check(r[0] == 'ok', 'importing never raises', r): continue
        H.eq(actual(el), expect(S, S.name, pairs, sep), 'imported texts')
    H.group('repeat import')
    for k in range(H.scale(600, 8000)):
        if not H.more(): break
        S = rng.choice([Array, MultiValue, List]).named(u'm').of(rng.choice([String, Integer])).using(prune_empty=rng.random() < .5)
        a = [(u'm' if not issubclass(S, List) else u'm_%d' % i, u'%d' % i) for i in range(rng.randrange(4))]; b = [(u'm' if not issubclass(S, List) else u'm_%d' % i, u'%d' % (i + 5)) for i in range(rng.randrange(4))]
        H.case(S.__name__, a, b); el = S(); el.set_flat(a); el.set_flat(b)
        H.eq(actual(el), expect(S, u'm', b, u'_'), 'an import replaces earlier members')
    H.group('export')
    for k in range(H.scale(2500, 40000)):
        if not H.more(): break
        S = gen.schema(rng, rng.randrange(0, 4), rng.choice([None, u'r', u'a']), compound=True); el = gen.element(rng, 3, rng.choice([None, u'r'])) if rng.random() < .4 else S()
        try: el.set(gen.value(rng, type(el)))
        except (TypeError, KeyError): pass
        sep = rng.choice([u'_', u'.', u'--'])
        H.case(schema_text(type(el)), gen.describe(el), sep)
        want = [(label(x, sep), x.u) for x in flat_elements(el)]
        H.eq(sorted(el.flatten(sep)), sorted(want), 'every flattenable element once with its full name')
        ids = []
        el.flatten(value=lambda x: ids.append(id(x)))
        H.eq(ids, [id(x) for x in flat_elements(el)], 'the value callable sees each listed element once')
        H.eq(sorted(el.flatten(sep, value=operator.attrgetter('name'))), sorted((label(x, sep), x.name) for x in flat_elements(el)), 'values come from the callable')
    H.group('round trip')
    for k in range(H.scale(2500, 40000)):
        if not H.more(): break
        S = rt_schema(rng, rng.randrange(0, 4), rng.choice([None, u'r'])); el = S()
        try: el.set(gen.value(rng, S, 1.0))
        except (TypeError, KeyError): continue
        sep = rng.choice([u'_', u'_', u'.', u'--'])
        flat = el.flatten(sep)
        H.case(schema_text(S), sep, flat)
        fresh = S()
        r = H.call(fresh.set_flat, flat, sep)
        H.check(r[0] == 'ok', 'an export can be imported', r)
        H.eq(fresh.flatten(sep), flat, 'export, import, export')
        H.eq(S.from_flat(el.flatten()).flatten(), el.flatten(), 'from_flat of an export')
def schema_text(S):
    n = [c for c in S.__mro__ if c.__module__.startswith('flatland.schema')][0].__name__
    if issubclass(S, Dict): return (n, S.name, getattr(S, 'minimum_fields', None), [schema_text(f) for f in S.field_schema])
    if issubclass(S, (List, Array)): return (n, S.name, S.prune_empty, schema_text(S.member_schema))
    return (n, S.name)
