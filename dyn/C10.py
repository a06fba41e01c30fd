# -*- coding: utf-8 -*-
# executable contracts for C10: path expressions
import gen
from flatland import Array, DateYYYYMMDD, Dict, Integer, List, SparseDict, String
from flatland.schema import paths
from flatland.schema.base import Element
WEIRD = [u'a', u'b', u'c', u'x', u'1', u'0', u'a.b', u'x/y', u'p[0]', u'..', u'.', u'[1]', u'caf\xe9', u'q]', u' s ', u'.h', u'a..', u'-1', u'1:2']
def esc(n): return u''.join(u'\\' + c if c in u'/.[]' else c for c in n)
class Missing(Exception): pass
def child(el, name):
    if isinstance(el, (Dict, DateYYYYMMDD)):
        if dict.__contains__(el, name): return dict.__getitem__(el, name)
        raise Missing
    if isinstance(el, (List, Array)):
        try: i = int(name)
        except ValueError: raise Missing
        k = gen.kids(el)
        if -len(k) <= i < len(k): return k[i]
    raise Missing
def simplify(steps):
    """drop '.', let '..' cancel the written step before it"""
    out = []
    for s in steps:
        if s[0] == 'here': continue
        if s[0] == 'up' and out and out[-1][0] in ('name', 'slice'): out.pop()
        elif s[0] == 'up' and out and out[-1][0] == 'top': pass
        else: out.append(s)
    return out
def evaluate(el, steps, strict):
    if not steps: return [el]
    op, d = steps[0]
    if op == 'top':
        while el.parent is not None: el = el.parent
        return evaluate(el, steps[1:], strict)
    if op == 'up': return evaluate(el.parent if el.parent is not None else el, steps[1:], strict)
    if op == 'name':
        try: c = child(el, d)
        except Missing:
            if strict: raise
            return []
        return evaluate(c, steps[1:], strict)
    out = []
    for c in gen.kids(el)[d]: out.extend(evaluate(c, steps[1:], strict))
    return out
def render(rng, steps):
    """text of a step list"""
    out = u''
    for i, (op, d) in enumerate(steps):
        if op == 'top': out = u'/'; continue
        brack = op == 'slice' or (op == 'name' and d.isdigit() and rng.random() < .6)
        if out and not out.endswith(u'/'):
            if not (brack and rng.random() < .7): out += u'/'
        if op == 'here': out += u'.'
        elif op == 'up': out += u'..'
        elif op == 'name': out += u'[%s]' % d if brack else esc(d)
        else: out += d_text(rng, d)
    if steps and steps[-1][0] != 'top' and rng.random() < .1: out += u'/'
    return out
def d_text(rng, s):
    if s.step is None and s.start is not None and s.start < 0 and s.stop == (None if s.start == -1 else s.start + 1) and rng.random() < .5: return u'[%d]' % s.start
    f = lambda x: u'' if x is None else u'%d' % x
    t = f(s.start) + u':' + f(s.stop)
    if s.step is not None: t += u':' + f(s.step)
    elif rng.random() < .15: t += u':'
    return u'[%s]' % t
def tree(rng):
    def sch(depth, name):
        r = rng.random()
        if depth <= 0 or r < .2: return rng.choice([String, Integer]).named(name)
        if r < .3: return Array.named(name).of(String)
        if r < .36: return DateYYYYMMDD.named(name)
        if r < .65: return List.named(name).of(sch(depth - 1, rng.choice([None, u'm'])))
        return rng.choice([Dict, Dict, SparseDict]).named(name).of(*[sch(depth - 1, n) for n in rng.sample(WEIRD, rng.randrange(1, 5))])
    S = sch(3, rng.choice([None, u'r'])); el = S()
    try: el.set(gen.value(rng, S, .9))
    except (TypeError, KeyError): pass
    return el
def rslice(rng):
    v = lambda: rng.choice([None, None, 0, 1, 2, 3, -1, -2, -3, 7, -9])
    if rng.random() < .2:
        i = rng.choice([-1, -2, -3]); return slice(i, None if i == -1 else i + 1)
    return slice(v(), v(), rng.choice([None, None, None, 1, 2, 3, -1, -2]))
def path_from(rng, el):
    """a step list that mostly follows the tree"""
    steps = []
    if rng.random() < .3:
        steps.append(('top', None))
        while el.parent is not None: el = el.parent
    for _ in range(rng.randrange(0, 6)):
        r = rng.random(); k = gen.kids(el)
        if r < .12: steps.append(('here', None)); continue
        if r < .3: steps.append(('up', None)); el = el.parent if el.parent is not None else el; continue
        if r < .4 or not k: steps.append(('name', rng.choice([u'zz', u'0', u'1', u'9', u'a', u'-1']))); continue
        if r < .6 or (isinstance(el, list) and r < .7): steps.append(('slice', rslice(rng))); el = k[0]; continue
        i = rng.randrange(len(k)); el2 = k[i]
        steps.append(('name', u'%d' % i if isinstance(el, list) else [n for n in dict.keys(el) if dict.__getitem__(el, n) is el2][0])); el = el2
    return steps
def compare(H, el, text, steps, simple=None):
    plan = simplify(steps) if simple is None else simple
    for strict in (True, False):
        try: want = ('ok', evaluate(el, plan, strict))
        except Missing: want = ('exc', 'LookupError')
        r = H.call(el.find, text, strict=strict)
        if want[0] == 'exc': H.check(r == want, 'a missing child raises LookupError in strict mode', (r, text))
        elif H.check(r[0] == 'ok' and isinstance(r[1], list), 'find', (r, want, strict)):
            H.check([id(x) for x in r[1]] == [id(x) for x in want[1]], 'the selected elements in order (strict=%s)' % strict, 'got %r, expected %r' % (r[1], want[1]))
        s = H.call(el.find, text, single=True, strict=strict)
        if want[0] == 'exc': H.check(s == want, 'single: missing child', s)
        elif not want[1]: H.check(s == ('ok', None), 'single: no match', s)
        elif len(want[1]) > 1 and strict: H.check(s == ('exc', 'LookupError'), 'single: several matches in strict mode', s)
        else: H.check(s[0] == 'ok' and s[1] is want[1][0], 'single: the first match', s)
    if want[0] == 'ok':
        d = paths.pathexpr(text)(el)
        H.check([id(x) for x in d] == [id(x) for x in want[1]], 'pathexpr defaults to the lenient mode', d)
def run(H):
    H.rule = 'random trees with awkward names x random step lists rendered (with escapes) to expressions, evaluated against a reference on the physical tree; repeated evaluation with a full cache'
    rng = H.rng
    H.group('random'); again = []
    for k in range(H.scale(6000, 90000)):
        if not H.more(): break
        root = tree(rng); el = rng.choice(gen.bfs(root))
        for _ in range(3):
            steps = path_from(rng, el); text = render(rng, steps)
            if not text: continue
            if text.startswith(u'//'): continue
            H.case(gen.describe(root), el.fq_name() if el.parent is not None else u'/', text)
            compare(H, el, text, steps)
            if len(again) < 400 and rng.random() < .02: again.append((root, el, text, steps))
    H.group('after many expressions')
    D = Dict.of(*[String.named(u'n%d' % i) for i in range(1300)])
    d = D()
    for i in range(1300):
        H.case(u'n%d' % i); r = H.call(d.find, u'n%d' % i)
        H.check(r[0] == 'ok' and len(r[1]) == 1 and r[1][0] is d[u'n%d' % i], 'distinct expressions keep their meaning', r)
    H.check(len(paths.expression_cache) <= paths.max_cache_size, 'the cache stays bounded', len(paths.expression_cache))
    for root, el, text, steps in again:
        H.case('again', text); compare(H, el, text, steps)
    H.group('slices')
    l = List.of(Integer)([1, 2, 3, 4, 5])
    for a in (u'', u'0', u'1', u'4', u'5', u'9', u'-1', u'-2', u'-5', u'-7'):
        for b in (u'', u'0', u'1', u'4', u'5', u'9', u'-1', u'-5', u'-7'):
            for c in (u'', u'1', u'2', u'-1', u'-2', u'9'):
                for t in ([u'[%s:%s]' % (a, b)] if not c else []) + [u'[%s:%s:%s]' % (a, b, c)]:
                    H.case(t); want = [1, 2, 3, 4, 5][(int(a) if a else None):(int(b) if b else None):(int(c) if c else None)]
                    H.eq(H.call(lambda: [e.value for e in l.find(t)]), ('ok', want), 'slice denotes Python slice')
    H.group('fixed'); S = Dict.named(u'f').of(Dict.named(u'd').of(String.named(u's')), List.named(u'l').of(Dict.of(String.named(u's'), String.named(u't'))), String.named(u'a[b]'), String.named(u'z'))
    e = S({u'd': {u's': u'1'}, u'l': [{u's': u'x'}, {u's': u'y'}]})
    N = lambda x: ('name', x)
    for t, st in [(u'/', [('top', 0)]), (u'.', []), (u'..', [('up', 0)]), (u'd/s/../../l[0]/t', [N(u'l'), N(u'0'), N(u't')]), (u'zz/../z', [N(u'z')]), (u'd/../../z', [('up', 0), N(u'z')]), (u'/../z', [('top', 0), N(u'z')]), (u'/d/../../z', [('top', 0), N(u'z')]),
                  (u'l[:]/s', [N(u'l'), ('slice', slice(None)), N(u's')]), (u'l[0]/../z', [N(u'l'), N(u'z')]), (u'l/[0]/../../z', [N(u'z')]), (u'a[b]', [N(u'a[b]')]), (u'a\\[b]', [N(u'a[b]')]), (u'./d/./s/.', [N(u'd'), N(u's')]), (u'../../z', [('up', 0), ('up', 0), N(u'z')])]:
        for el in [e, e[u'd'], e[u'd'][u's'], e[u'l'][1], e[u'z']]:
            H.case(t, el.fq_name()); compare(H, el, t, st, simple=st)
    H.case('bytes'); H.check(e.find('d/s')[0] is e[u'd'][u's'], 'byte strings are accepted')
