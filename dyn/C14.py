# -*- coding: utf-8 -*-
# executable contracts for C14: generated markup escapes all text
import re
from flatland import Array, Dict, String, Integer, List
from flatland.out import generic, markup
from flatland.out.generic import Markup
from flatland.out.markup import Generator
TAG = re.compile(u'\\A<([a-z0-9]+)((?: [^\\s="<>/]+="[^"<>]*")*)( /)?>(.*)\\Z', re.S)
ATTR = re.compile(u' ([^\\s="<>/]+)="([^"<>]*)"')
ENT = re.compile(u'&(?!(?:amp|lt|gt|quot);)')
class HTML(object):
    def __init__(self, s): self.s = s
    def __html__(self): return self.s
    def __nonzero__(self): return True
class Odd(unicode):
    def __html__(self): return Sub(u'<i>' + unicode(self) + u'</i>')
class Sub(unicode): pass
def unescape(s):
    return s.replace(u'&lt;', u'<').replace(u'&gt;', u'>').replace(u'&quot;', u'"').replace(u'&amp;', u'&')
def text(rng):
    return u''.join(rng.choice([u'&', u'<', u'>', u'"', u"'", u'a', u' ', u'&amp;', u'&lt;', u'&#60;', u'&quot;', u'x=', u'caf\xe9', u'\u2028', u'</', u'-->', u';', u'\n', u'%s', u'\\']) for _ in range(rng.randrange(0, 7)))
def parse(H, out, tag):
    m = TAG.match(unicode(out))
    if not H.check(m is not None and m.group(1) == tag, 'the output is one well formed tag whose attribute values hold no quote or angle bracket', unicode(out)): return None
    attrs = ATTR.findall(m.group(2))
    H.check(u''.join(u' %s="%s"' % a for a in attrs) == m.group(2), 'the attributes parse completely', unicode(out))
    return dict(attrs), m.group(4)
def run(H):
    H.rule = 'random field texts, names, labels and attribute values built from markup-significant pieces, over every tag and markup style; output re-parsed and unescaped'
    rng = H.rng
    H.group('escape functions')
    for k in range(H.scale(3000, 60000)):
        s = text(rng); H.case(s)
        for fn, bad in ((generic._markup_escape, u'<>'), (markup._attribute_escape, u'<>"')):
            r = fn(s)
            H.check(isinstance(r, unicode) and not hasattr(r, '__html__'), 'text', r)
            H.check(not any(c in r for c in bad) and not ENT.search(r), 'no raw markup character or foreign entity remains', (s, r))
            H.eq(unescape(r), s, 'unescaping restores the text')
            H.eq(r.count(u'&'), sum(s.count(c) for c in u'&' + bad), 'each special character is replaced exactly once')
            H.eq(re.sub(u'&(amp|lt|gt|quot);', u'', r), re.sub(u'[&' + bad + u']', u'', s), 'nothing else changes')
        for v in (Markup(s), HTML(s), Odd(s)):
            for fn in (generic._markup_escape, markup._attribute_escape):
                if s: H.eq(fn(v), unicode(v.__html__()), 'declared markup passes through verbatim')
                if s: H.check(type(fn(v)) is unicode, 'plain text comes out', fn(v))
        H.eq(generic._markup_escape(u''), u'', 'empty'); H.eq(markup._attribute_escape(None), u'', 'none')
    H.group('rendered tags')
    tags = ['input', 'textarea', 'button', 'select', 'option', 'label', 'form']
    class Esc(Markup): pass
    for k in range(H.scale(6000, 120000)):
        if not H.more(): break
        kind = rng.choice(['xhtml', 'html', 'xml']); g = Generator(kind)
        if rng.random() < .3: g.begin(auto_domid=True, auto_for=True)
        if rng.random() < .2: g.set(markup_wrapper=Esc)
        if rng.random() < .2: g.set(ordered_attributes=False)
        nm = text(rng); val = text(rng)
        r = rng.random()
        if r < .5: el = String.named(nm)(val)
        elif r < .7: el = Dict.named(nm).of(String.named(u'f'))({u'f': val})[u'f']
        elif r < .85: el = Array.named(nm).of(String)([val, text(rng)])
        else: el = Integer.named(nm)(val)
        attrs = {}
        for n in rng.sample(['title', 'value', 'name', 'id', 'for_', 'class_', 'onclick'], rng.randrange(0, 4)): attrs[n] = text(rng)
        mk = rng.random() < .2
        if mk: attrs['style'] = rng.choice([Markup, HTML])(rng.choice([u'a&amp;b', u'x', u'&quot;']))
        tag = rng.choice(tags); force = {}
        for t in ('auto_name', 'auto_value', 'auto_domid', 'auto_for'):
            if rng.random() < .3: force[t] = rng.choice([u'on', True, u'off', u'auto'])
        if tag == 'input' and rng.random() < .5: attrs['type'] = rng.choice([u'text', u'checkbox', u'radio', u'hidden', u'password'])
        H.case(kind, tag, nm, val, sorted(attrs.items()), sorted(force.items()))
        kw = dict(attrs); kw.update(force)
        style = rng.choice(['call', 'open', 'html', 'tag'])
        ok, out = H.noexc('rendering', lambda: getattr(g, tag)(el, **kw) if style == 'call' else g.tag(tag, el, **kw) if style == 'tag' else (unicode(getattr(g, tag).open(el, **kw)) + unicode(getattr(g, tag).contents) + unicode(getattr(g, tag).close()) if style == 'open' else getattr(g, tag)(el, **kw).__html__()))
        if not ok: continue
        res = parse(H, out, tag)
        if res is None: continue
        got, body = res
        for n, v in got.items():
            if not (n == u'style' and mk): H.check(not ENT.search(v), 'every ampersand starts one of the four entities', (n, v))
        # explicit attributes, and generated ones
        for n, v in attrs.items():
            k2 = n.rstrip('_')
            if n == 'style': H.eq(got.get(u'style'), unicode(v.__html__()), 'declared markup passes through verbatim')
            elif n in ('title', 'class_', 'onclick') : H.eq(unescape(got.get(unicode(k2), u'?')), v, 'unescaping an explicit attribute restores it')
            elif k2 in ('value', 'name') and force.get('auto_' + k2) not in (u'on', True): H.eq(unescape(got.get(unicode(k2), u'?')), v, 'unescaping an explicit attribute restores it')
        if force.get('auto_name') in (u'on', True) and el.flattened_name(): H.eq(unescape(got.get(u'name', u'?')), el.flattened_name(), 'unescaping the generated name restores it')
        if tag in ('button', 'select') and force.get('auto_value') in (u'on', True): H.eq(unescape(got.get(u'value', u'?')), el.u, 'unescaping the generated value restores it')
        if tag == 'input' and attrs.get('type', u'text') in (u'text', u'hidden') and 'value' not in attrs and force.get('auto_value') != u'off': H.eq(unescape(got.get(u'value', u'?')), el.u, 'unescaping the generated value restores it')
        close = u'</%s>' % tag
        if body.endswith(close): body = body[:-len(close)]
        H.check(not re.search(u'[<>]', body) and not ENT.search(body), 'the contents hold no raw markup character', body)
        if tag == 'textarea':
            H.eq(unescape(body), el.u if force.get('auto_value') != u'off' else u'', 'unescaping the contents restores the text')
    H.group('contents')
    for k in range(H.scale(300, 5000)):
        s = text(rng); g = Generator(rng.choice(['html', 'xhtml'])); el = String.named(u'n').using(strip=False)(s)
        H.case(s)
        t = g.textarea; t.open(el); c = t.contents
        H.eq(unescape(unicode(c)), s, 'contents of an opened tag'); H.check(not re.search(u'[<>]', unicode(c)), 'contents are escaped', c); t.close()
        H.eq(unicode(g.textarea(el, contents=Markup(u'<b>'))), u'<textarea name="n"><b></textarea>', 'explicit markup contents pass through verbatim')
        H.check(unescape(unicode(g.textarea(el, contents=u'zzz', auto_value=u'on'))) == u'<textarea name="n">%s</textarea>' % s, 'forced contents', None)
        H.eq(unicode(g.option(el, value=s, contents=Markup(u'<b>'))), u'<option value="%s" selected="selected"><b></option>' % markup._attribute_escape(s), 'an option')
