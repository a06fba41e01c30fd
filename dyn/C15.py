# -*- coding: utf-8 -*-
# executable contracts for C15: nested markup settings
from flatland.out.generic import Context, Markup
from flatland.out.markup import Generator
from flatland.out.util import parse_trool
from flatland import String
from flatland.util import Maybe
KEYS = ['auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex', 'auto_filter', 'tabindex', 'domid_format', 'filters', 'ordered_attributes', 'markup_wrapper']
class Other(Markup): pass
def val(rng, k):
    if k == 'tabindex': return rng.choice([0, 1, 5, -1, 100])
    if k == 'domid_format': return rng.choice([u'f_%s', u'%s', u'x-%s'])
    if k == 'filters': return rng.choice([(), (len,), []])
    if k == 'ordered_attributes': return rng.choice([True, False])
    if k == 'markup_wrapper': return rng.choice([Markup, Other])
    return rng.choice([True, False, Maybe, u'on', u'off', u'auto', u'1', u'no', u'junk', 1, 0])
def view(c): return dict((k, c[k]) for k in KEYS if k in c)
def same(a, b): return a == b and all(type(a[k]) is type(b[k]) for k in a)
def run(H):
    H.rule = 'random sequences of begin/end/set/update/item assignment/tag rendering, valid and rejected, on two generators at once, against a stack of dictionaries'
    rng = H.rng
    D = {u'auto_name': True, u'auto_value': True, u'auto_domid': False, u'auto_for': False, u'auto_tabindex': False, u'auto_filter': False, u'tabindex': 0, u'domid_format': u'f_%s', u'filters': (), u'ordered_attributes': True, u'markup_wrapper': Markup}
    H.group('sequences')
    for k in range(H.scale(4000, 80000)):
        if not H.more(): break
        gs = []; ms = []; log = []
        for j in range(2):
            kw = dict((n, val(rng, n)) for n in rng.sample(KEYS, rng.randrange(0, 3)))
            ok, g = H.noexc('Generator()', lambda: Generator(rng.choice(['html', 'xhtml', 'xml']), **kw)); gs.append(g)
            m = dict(D); m.update(kw); ms.append([m]); log.append(kw)
        for step in range(rng.randrange(1, 14)):
            j = rng.randrange(2); g = gs[j]; m = ms[j]
            op = rng.choice(['begin', 'begin', 'end', 'end', 'set', 'update', 'item', 'badbegin', 'badset', 'badupdate', 'baditem', 'tag', 'pushpop', 'opentag'])
            kw = dict((n, val(rng, n)) for n in rng.sample(KEYS, rng.randrange(0, 4)))
            log.append((op, j, kw)); H.case(log)
            if op == 'begin':
                ok, r = H.noexc('begin', g.begin, **kw); f = dict(m[-1]); f.update(kw); m.append(f)
                H.check(r == u'' and isinstance(r, g['markup_wrapper']), 'begin renders as nothing', r)
            elif op == 'end':
                if len(m) == 1: H.raises(RuntimeError, 'ending more scopes than were begun is refused', g.end)
                else:
                    ok, r = H.noexc('end', g.end); m.pop(); H.check(r == u'', 'end renders as nothing', r)
            elif op == 'set':
                H.noexc('set', g.set, **kw)
                for n, v in kw.items(): m[-1][n] = parse_trool(v) if n.startswith('auto_') else v
            elif op == 'update':
                form = rng.choice(['kw', 'dict', 'pairs', 'both'])
                if form == 'kw': H.noexc('update', g.update, **kw)
                elif form == 'dict': H.noexc('update', g.update, kw)
                elif form == 'pairs': H.noexc('update', g.update, list(kw.items()))
                else: H.noexc('update', g.update, kw, **kw)
                m[-1].update(kw)
            elif op == 'item':
                for n, v in kw.items(): H.noexc('item assignment', g.__setitem__, n, v)
                m[-1].update(kw)
            elif op == 'badbegin':
                kw[rng.choice(['bogus', 'auto_bogus', 'Tabindex'])] = 1
                H.raises((KeyError, TypeError), 'begin refuses unknown settings', g.begin, **kw)
            elif op == 'badset':
                kw = {rng.choice(['bogus', 'auto_bogus', 'zzz']): 1}
                H.raises((KeyError, TypeError), 'set refuses unknown settings', g.set, **kw)
            elif op == 'badupdate':
                H.raises((KeyError, TypeError), 'update refuses unknown settings', g.update, {u'bogus': 2})
                H.raises((KeyError, TypeError), 'update refuses unknown settings', g.update, bogus=2)
                H.raises(TypeError, 'update takes one positional', g.update, {}, {})
            elif op == 'baditem':
                H.raises(KeyError, 'item assignment refuses unknown settings', g.__setitem__, u'bogus', 2); H.raises(KeyError, 'reading an unknown setting', lambda: g[u'bogus'])
                H.check(u'bogus' not in g, 'not there')
            elif op == 'pushpop':
                H.noexc('push', g.push, **kw); H.noexc('pop', g.pop)
            elif op in ('tag', 'opentag'):
                if callable(m[-1]['filters']) or len(m[-1]['filters']): continue
                el = String.named(u'n')(u'v')
                before = m[-1]['tabindex']
                sw = parse_trool(m[-1]['auto_tabindex']); sw = False if sw is Maybe else sw
                if op == 'tag': H.noexc('tag', g.input, el)
                else: H.noexc('tag', g.textarea.open, el); H.noexc('tag', g.textarea.close)
                if sw and before > 0: m[-1]['tabindex'] = before + 1
            for jj in range(2):
                if not H.check(same(view(gs[jj]), ms[jj][-1]), 'the settings in force are those of the innermost open scope', (jj, view(gs[jj]), ms[jj][-1])): break
        for jj in range(2):
            g, m = gs[jj], ms[jj]
            while len(m) > 1:
                H.noexc('end', g.end); m.pop()
                H.check(same(view(g), m[-1]), 'ending a scope restores the settings before its begin', (view(g), m[-1]))
            H.raises(RuntimeError, 'the outermost scope cannot be ended', g.end)
            H.check(same(view(g), m[-1]), 'and a refused end loses nothing')
    H.group('construction')
    for n in KEYS:
        H.case(n); v = val(rng, n); g = Generator(**{n: v}); H.eq(g[n], v, 'a construction setting is effective'); H.eq(view(Generator()), D, 'other generators keep the defaults')
    H.case('unknown'); H.raises((KeyError, TypeError), 'unknown construction setting', Generator, 'html', bogus=1); H.raises(TypeError, 'unknown markup', Generator, 'sgml')
    H.group('contexts')
    c = Context(); H.case('pop'); H.raises(RuntimeError, 'the base frame cannot be popped', c.pop); c.push(); c.push(tabindex=9); H.eq(c['tabindex'], 9, 'pushed'); c.pop(); H.eq(c['tabindex'], 0, 'popped'); c.pop(); H.raises(RuntimeError, 'the base frame cannot be popped', c.pop)
    H.eq(len(c._frames), 1, 'one frame'); H.raises(KeyError, 'push refuses', c.push, bogus=1, tabindex=4); H.eq((len(c._frames), c['tabindex']), (1, 0), 'a refused push leaves the stack')
