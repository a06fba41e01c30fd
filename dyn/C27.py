# -*- coding: utf-8 -*-
# executable contracts for C27: a bound tag rendered through Genshi has the attributes and contents of the plain generator
import re
from flatland import Array, MultiValue, Boolean, Dict, Integer, List, String, Form
from flatland.out.markup import Generator
from flatland.out.generic import Context
from flatland.out.genshi import setup
from genshi.template import MarkupTemplate
from genshi.core import Stream, QName, Attrs, START, END, TEXT, START_NS, END_NS
OPEN = re.compile(ur'<([a-z]+)((?:\s+[A-Za-z:_-]+="[^"<]*")*)\s*(/?)>')
ATT = re.compile(ur'([A-Za-z:_-]+)="([^"<]*)"')
def unescape(t):
    for a, b in ((u'&lt;', u'<'), (u'&gt;', u'>'), (u'&quot;', u'"'), (u'&#34;', u'"'), (u'&#39;', u"'"), (u'&amp;', u'&')): t = t.replace(a, b)
    return t
def parse(s):
    """[(tag, {attribute: text}, contents)] of a flat or nested sequence of tags; contents of a tag is its own text"""
    out, stack, pos = [], [], 0
    while pos < len(s):
        if s[pos] != u'<':
            e = s.find(u'<', pos); e = len(s) if e < 0 else e
            if stack: stack[-1][2].append(s[pos:e])
            pos = e; continue
        if s[pos:pos + 2] == u'</':
            e = s.index(u'>', pos)
            if not stack or stack[-1][0] != s[pos + 2:e]: return None
            stack.pop(); pos = e + 1; continue
        m = OPEN.match(s, pos)
        if not m: return None
        at = ATT.findall(m.group(2)); ent = [m.group(1), dict((k, unescape(v)) for k, v in at), []]
        if len(at) != len(ent[1]): return None          # an attribute twice
        out.append(ent)
        if not m.group(3): stack.append(ent)
        pos = m.end()
    if stack: return None
    return [(t, a, unescape(u''.join(c))) for t, a, c in out]
NS = {'form': 'http://ns.discorporate.us/flatland/genshi', 'py': 'http://genshi.edgewall.org/', 'zz': 'urn:zz'}
# Genshi compiles expressions with a module Jython lacks: names and constants are enough here
from genshi.template import eval as _ge
def _einit(self, source, *a, **k): self.source = source if not isinstance(source, str) else source.decode('utf-8'); self.code = self.ast = self._globals = None
def _eeval(self, data):
    t = self.source.strip()
    return {u'True': True, u'False': False, u'None': None}[t] if t in (u'True', u'False', u'None') else data[t]
_ge.Expression.__init__ = _einit; _ge.Expression.evaluate = _eeval; _ge.Code.__init__ = _einit
TOK = re.compile(ur'<(/?)([a-z:-]+)((?:\s+[A-Za-z:_-]+="[^"<]*")*)\s*(/?)>|([^<]+)')
def events(text):
    """the event stream Genshi's own parser gives for a template (the XML parser it needs is not there under Jython)"""
    def q(n):
        p, _, l = n.rpartition(u':')
        return QName(NS[p] + u'}' + l) if p else QName(l)
    out = [(START_NS, (p, u), (None, 1, 0)) for p, u in sorted(NS.items())] + [(START, (QName(u'div'), Attrs()), (None, 1, 0))]; pos = 0
    while pos < len(text):
        m = TOK.match(text, pos); where = (None, 1, pos)
        if m.group(5): out.append((TEXT, unescape(m.group(5)), where))
        elif m.group(1): out.append((END, q(m.group(2)), where))
        else:
            out.append((START, (q(m.group(2)), Attrs([(q(a), unescape(v)) for a, v in ATT.findall(m.group(3))])), where))
            if m.group(4): out.append((END, q(m.group(2)), where))
        pos = m.end()
    out.append((END, QName(u'div'), (None, 1, pos)))
    return Stream(out + [(END_NS, p, (None, 1, pos)) for p in sorted(NS)])
def esc(t): return t.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;').replace(u'"', u'&quot;').replace(u'$', u'$$')
TOG = ['auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex', 'auto_filter']
WORD = [u'on', u'off', u'auto', u'yes', u'no', u'1', u'0', u'junk', u'True', u'false', u'False', u'0']
TEXTS = [u'a', u'b', u'a b', u'<&>"', u'x&amp;y', u'1', u'caf\xe9', u'on', u"it's", u'$x', u'']
class S(String): strip = False
def field(rng):
    nm = rng.choice([u'n', u'na me', None, u'x', u'caf\xe9', u'q"<']); v = rng.choice(TEXTS)
    k = rng.choice(['str', 'str', 'str', 'bool', 'arr', 'multi', 'int', 'dict', 'none', 'list'])
    if k == 'str': return S.named(nm)(v)
    if k == 'bool': return Boolean.named(nm).using(true=rng.choice([u'1', u'yes']))(rng.choice([True, False, None]))
    if k == 'arr': return Array.named(nm).of(S)([v, u'b'][:rng.randrange(3)])
    if k == 'multi': return MultiValue.named(nm).of(S)([v, u'b'])
    if k == 'int': return Integer.named(nm)(rng.choice([v, 5]))
    if k == 'dict': return Dict.named(u'd').of(S.named(u'k'))({u'k': v})[u'k']
    if k == 'list': return List.named(u'l').of(S.named(u'k'))([u'0', v])[1]
    return None
def one(rng, k, vs, calls):
    """a tag: (template text, function giving the plain markup of it and of the options inside)"""
    mode = rng.random(); tag = 'select' if mode < .25 else rng.choice(['input', 'input', 'input', 'textarea', 'button', 'select', 'option', 'label', 'form', 'div'])
    el = field(rng) if mode < .8 else None
    if mode < .2: el = (S if rng.random() < .6 else rng.choice([Array, MultiValue]).of(S)).named(u'n')(); el.set(rng.choice([u'a', u'b', u'on']) if isinstance(el, S) else rng.sample([u'a', u'b', u'on'], rng.randrange(3)))
    vs['el%d' % k] = el
    at, tm = {}, []
    for n in ('value', 'name', 'id', 'tabindex', 'checked', 'selected', 'title', 'class', 'for'):
        if rng.random() < .25: at[n] = rng.choice(TEXTS if n != 'tabindex' else [u'3'])
    if tag == 'input' and rng.random() < .8: at['type'] = rng.choice([u'text', u'checkbox', u'radio', u'password', u'file', u'image', u'hidden', u'submit'])
    for n, v in at.items():
        how = rng.random()
        if how < .5: tm.append((n, esc(v)))
        elif how < .8: vs['v%d%s' % (k, n)] = v; tm.append((n, u'${v%d%s}' % (k, n)))
        else: h = len(v) // 2; vs['v%d%s' % (k, n)] = v[h:]; tm.append((n, esc(v[:h]) + u'${v%d%s}' % (k, n)))
    tog = dict((t, rng.choice(WORD if el is not None else [u'on', u'off', u'yes', u'auto'])) for t in TOG if rng.random() < (.3 if el is not None else .6))
    for t, w in tog.items():
        if rng.random() < .7: tm.append((u'form:' + t.replace('_', '-'), w))
        else: vs['t%d%s' % (k, t)] = {u'0': 0, u'1': 1, u'True': True, u'False': False}.get(w, w) if rng.random() < .6 else w; tm.append((u'form:' + t.replace('_', '-'), u'${t%d%s}' % (k, t)))
    foreign = rng.random() < .2
    if foreign: tm.append((u'zz:w', u'q'))
    unbound = el is None and tog and rng.random() < .5
    if not unbound: tm.insert(rng.randrange(len(tm) + 1), (u'form:bind', u'el%d' % k if el is not None or rng.random() < .5 else u''))
    if rng.random() < .1: tm.append((u'py:if', u'True'))
    contents = None; inner = u''; opts = []
    r = rng.random()
    if tag == 'select' and r < .8:
        for i in range(rng.randrange(1, 4)):
            ov = rng.choice(TEXTS + [None]) if mode > .2 else rng.choice([u'a', u'b', u'on', None, None]); oc = rng.choice([None, u'a', u'b', u'on', u' a '])
            own = rng.choice(['', '', '', 'py:if="True"', 'form:bind=""', 'form:bind="other"', 'form:auto-value="off"', 'form:auto-domid="on"']); deco = rng.random(); x = None
            t = u'<option%s%s>%s' % (u'' if ov is None else u' value="%s"' % esc(ov), own and u' ' + own, oc or u'')
            opts.append((ov, oc, own))
            if deco < .15 and ov is not None and not oc and 'form' not in own:
                ov2 = rng.choice(TEXTS); t += u'<option value="%s"/>' % esc(ov2); opts.append((ov2, None, ''))
            t += u'</option>'
            if deco > .85: t = u'<optgroup>%s</optgroup>' % t; opts[-1:] = ['group', opts[-1]]
            inner += t
        contents = u'' if tag != 'select' else u''
    elif tag not in ('input', 'select') and r < .5:
        contents = rng.choice([u'a', u'b', u' b ', u'on', u'caf\xe9'])
        if rng.random() < .5: inner = contents
        else: vs['c%d' % k] = contents; inner = u'${c%d}' % k
    text = u'<%s %s>%s</%s>' % (tag, u' '.join(u'%s="%s"' % x for x in tm), inner, tag)
    def plain(g):
        kw = dict((n + '_' if n in ('class', 'for') else n, v) for n, v in at.items()); kw.update(tog)
        if contents: kw['contents'] = contents
        elif opts: kw['contents'] = u'#'
        r = getattr(g, tag)(el, **kw) if hasattr(Generator, tag) else g.tag(tag, el, **kw)
        out = [r if isinstance(r, unicode) else r()]         # tag() without anything gives a tag to call
        for o in opts:
            if o == 'group': out.append(u'<optgroup/>'); continue
            ov, oc, own = o
            kw = {} if ov is None else {'value': ov}
            if oc: kw['contents'] = oc
            e = None if own == 'form:bind=""' else vs['other'] if own == 'form:bind="other"' else el
            if 'auto' in own: kw[own[5:].split('=')[0].replace('-', '_')] = own.split('"')[1]
            out.append(g.option(e, **kw) if 'form' in own else g.option(el, **kw) if el is not None else u'<option%s>%s</option>' % (u'' if ov is None else u' value="%s"' % esc(ov).replace(u'$$', u'$'), oc or u''))       # of a select bound to nothing options are not bound
        return out, foreign, bool(opts)
    return text, plain, (tag, None if el is None else (type(el).__name__, el.name, el.u), at, tog, contents, opts)
def run(H):
    H.rule = 'random sequences of bound tags with attributes, toggles, settings scopes, filters and options, rendered through Genshi and by the plain generator; the attributes, the contents and the calls of filters must be the same'
    rng = H.rng
    H.group('tags')
    for n in range(H.scale(2500, 12000)):
        if not H.more(): break
        calls, vs = [], {}; cur = [None]
        def filt(tagname, attributes, contents, context, bind): cur[0].append((tagname, dict(attributes), contents if isinstance(contents, unicode) or contents is None else '*', bind)); return contents
        def filt2(tagname, attributes, contents, context, bind): attributes[u'data-f'] = u'1'; attributes.pop(u'title', None); return contents if not isinstance(contents, unicode) or len(contents) != 1 else contents * 2
        filt2.tags = ('input', 'label', 'button')
        def filt3(tagname, attributes, contents, context, bind): attributes[u'data-g'] = u'2'; cur[0].append((tagname, 3, contents, bind)); return contents
        vs['fs'] = (filt, filt2); vs['fs2'] = (filt3,); vs['other'] = field(rng) or S(u'on'); steps, body, log = [], u'', []
        k = 0
        def seq(depth):
            """template text and actions on a generator"""
            out, acts = u'', []
            for i in range(rng.randrange(1, 4)):
                r = rng.random()
                if r < .2 and depth < 3:
                    sw = dict((t, rng.choice(WORD)) for t in TOG if rng.random() < .4)
                    if rng.random() < .4: sw['tabindex'] = rng.choice([0, 1, 7, -1])
                    if rng.random() < .3: sw['domid_format'] = rng.choice([u'f_%s', u'id-%s'])
                    tx = u' '.join(u'%s="%s"' % (a.replace('_', '-'), b) for a, b in sorted(sw.items()))
                    if rng.random() < .4: fl = rng.choice(['fs', 'fs2']); sw['filters'] = vs[fl]; tx += u' filters="%s"' % fl
                    t, a = seq(depth + 1); log.append(('with', sorted((x, repr(y)) for x, y in sw.items() if x != 'filters')))
                    out += u'<form:with %s>%s</form:with>' % (tx, t); acts += [('begin', sw)] + a + [('end', None)]
                elif r < .3:
                    sw = dict((t, rng.choice(WORD)) for t in TOG if rng.random() < .3)
                    if rng.random() < .4: sw['tabindex'] = rng.choice([0, 1, 7, -1])
                    if not sw: continue
                    out += u'<form:set %s/>' % u' '.join(u'%s="%s"' % (a.replace('_', '-'), b) for a, b in sorted(sw.items())); acts.append(('set', sw)); log.append(('set', sorted(sw.items())))
                else:
                    K = vs.setdefault('#', 0); vs['#'] = K + 1
                    t, p, d = one(rng, K, vs, calls); out += t; acts.append(('tag', p)); log.append(d)
            return out, acts
        text, acts = seq(0); vs.pop('#', None)
        H.case(text, log)
        cur[0] = gcalls = []
        try:
            tpl = MarkupTemplate(events(text)); setup(tpl); got = raw = tpl.generate(**vs).render('xml', encoding=None, strip_whitespace=False)
        except Exception as e:
            H.fail('the template renders', '%s: %s' % (type(e).__name__, e)); continue
        got = parse(got[got.index(u'>') + 1:got.rindex(u'<')] if u'</div>' in got else u'')
        if not H.check(got is not None, 'the output is well formed', raw): continue
        cur[0] = pcalls = []; g = Generator('xml'); want = []
        for a, x in acts:
            if a == 'begin': g.begin(**x)
            elif a == 'end': g.end()
            elif a == 'set': g.update(**x)
            else:
                tags, foreign, opts = x(g)
                for i, t in enumerate(tags):
                    p = parse(unicode(t))
                    if not H.check(p is not None and len(p) == 1, 'the plain output is well formed', unicode(t)): return
                    t, at, c = p[0]
                    if i == 0 and foreign: at[u'zz:w'] = u'q'
                    if i == 0 and opts: c = u''
                    want.append((t, at, c))
        H.eq([(t, sorted(x for x in a.items() if not x[0].startswith(u'xmlns')), c) for t, a, c in got], [(t, sorted(a.items()), c) for t, a, c in want], 'the same attributes and contents as the plain generator')
        H.eq([c[:2] + c[3:] for c in gcalls], [c[:2] + c[3:] for c in pcalls], 'filters are called with the same tags, attributes and fields')
