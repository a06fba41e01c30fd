# -*- coding: utf-8 -*-
# executable contracts for C16: automatic markup attributes
import re
from flatland import Array, MultiValue, Boolean, Dict, Integer, List, String
from flatland.out import generic, util
from flatland.out.generic import Markup, Context
from flatland.out.markup import Generator
from flatland.util import Maybe
from C14 import TAG, ATTR, unescape
YES = [u'1', u'true', u't', u'on', u'yes', u'ON', u'Yes', u'TRUE', True, 1, 'on']
NO = [u'0', u'false', u'nil', u'off', u'no', u'OFF', u'False', False, 0, 'off']
MAY = [u'auto', u'AUTO', u'junk', u'', None, Maybe, 2, u'Maybe', u' on']
def trool(v):
    if v is Maybe: return None
    for s, r in ((YES, True), (NO, False)):
        for x in s:
            if v is x or (type(v) is type(x) and v == x): return r
    return None
DEF = {'auto_name': True, 'auto_value': True, 'auto_domid': False, 'auto_for': False, 'auto_tabindex': False, 'auto_filter': False}
NAMES = {'auto_name': ('input', 'button', 'select', 'textarea', 'form'), 'auto_value': ('button', 'input', 'option', 'textarea'), 'auto_domid': ('input', 'button', 'select', 'textarea'),
         'auto_for': ('label',), 'auto_tabindex': ('input', 'button', 'select', 'textarea')}
def domid(tag, at, el):
    base = el.flattened_name() if el is not None else at.get(u'name')
    if not base: return None
    if tag == 'input' and at.get(u'type') in (u'checkbox', u'radio'):
        suf = re.sub(u'[^A-Za-z0-9_:.-]', u'', at.get(u'value') or u'')
        if suf: base += u'_' + suf
    return base
def model(tag, attrs, contents, el, eff, forced, scope):
    """the attributes and contents expected"""
    at = dict(attrs)
    def on(t, need=True): return eff[t] and (el is not None or not need)
    def gen(t, key, v):
        if v and (forced[t] or (at.get(key) is None and tag in NAMES[t])): at[key] = v
    if on('auto_name'): gen('auto_name', u'name', el.flattened_name())
    if on('auto_value') and (forced['auto_value'] or tag in NAMES['auto_value']):
        f = forced['auto_value']; ty = at.get(u'type', u'')
        def member(v): return any(m.u == v for m in el) if isinstance(el, Array) else v == el.u
        if tag == 'input' and ty in (u'checkbox', u'radio'):
            v = at.get(u'value')
            if v is None and ty == u'checkbox' and isinstance(el, Boolean): at[u'value'] = v = el.true
            if v is None and ty == u'radio' and u'value' not in at: v = u''
            at.pop(u'checked', None)
            if v is not None and member(v): at[u'checked'] = u'checked'
        elif tag == 'input' and ty in (u'password', u'file', u'image'):
            if f: at[u'value'] = el.u
        elif tag == 'option':
            v = at.get(u'value')
            if v is None: v = contents.strip() if isinstance(contents, unicode) else u''
            at.pop(u'selected', None)
            if member(v): at[u'selected'] = u'selected'
        elif tag == 'textarea':
            if contents is None or f: contents = generic._markup_escape(el.u)
        elif f or at.get(u'value') is None: at[u'value'] = el.u
    if on('auto_domid', False):
        r = domid(tag, at, el); gen('auto_domid', u'id', r and scope['domid_format'] % r)
    if on('auto_for'):
        r = domid(tag, at, el); gen('auto_for', u'for', r and scope['domid_format'] % r)
    ti = scope['tabindex']
    if eff['auto_tabindex'] and ti != 0 and (forced['auto_tabindex'] or (at.get(u'tabindex') is None and tag in NAMES['auto_tabindex'])):
        at[u'tabindex'] = unicode(ti)
        if ti > 0: ti += 1
    return at, contents, ti
class S(String): strip = False
def run(H):
    H.rule = 'random toggles (tag, scope, default), bound fields, explicit attributes, tag kinds and tab indexes, in tag sequences, against a reference that decides every attribute from the documented rules'
    rng = H.rng
    H.group('parse_trool')
    for v in YES + NO + MAY:
        H.case(v); w = trool(v); r = util.parse_trool(v); H.check(r is (Maybe if w is None else w), 'a definite yes or no, else undecided', r)
    H.group('toggles')
    for key in sorted(DEF):
        for tv in YES + NO + MAY + ['absent']:
            for cv in YES + NO + MAY:
                H.case(key, tv, cv); c = Context(); c[key] = cv; at = {u'x': u'1'}
                if tv != 'absent': at[unicode(key)] = tv
                r = generic._pop_toggle(unicode(key), at, c)
                t = None if tv == 'absent' else trool(tv); e = t if t is not None else trool(cv) if trool(cv) is not None else DEF[key]
                H.eq((r[0], r[1]), (e, t is True), 'tag toggle, then scope, then default'); H.eq(at, {u'x': u'1'}, 'the toggle is removed, other attributes stay')
    H.group('tags')
    tags = ['input', 'input', 'input', 'textarea', 'button', 'select', 'option', 'label', 'form', 'div']
    for k in range(H.scale(3500, 80000)):
        if not H.more(): break
        g = Generator(rng.choice(['html', 'xhtml', 'xml']))
        scope = {'tabindex': rng.choice([0, 1, 1, 7, -1, 99]), 'domid_format': rng.choice([u'f_%s', u'id-%s'])}
        calls = []
        def filt(tagname, attributes, contents, context, bind): calls.append((tagname, dict(attributes))); return contents
        def filt2(tagname, attributes, contents, context, bind): calls.append(('2', tagname)); attributes[u'data-f'] = u'1'; return contents
        filt2.tags = ('input', 'label')
        fs = rng.choice([(), (filt,), (filt, filt2)])
        sw = {}
        for t in DEF:
            if rng.random() < .6: sw[t] = rng.choice(YES + NO + MAY)
        how = rng.choice(['begin', 'set', 'init'])
        if how == 'begin': g.begin(filters=fs, **dict(scope, **sw))
        elif how == 'set': g.set(filters=fs, **dict(scope, **sw))
        else: g = Generator(filters=fs, **dict(scope, **sw))
        log = [sorted(scope.items()), sorted(sw.items()), how, len(fs)]
        for step in range(rng.randrange(1, 5)):
            tag = rng.choice(tags)
            nm = rng.choice([u'n', u'na me', None, u'x', u'caf\xe9']); v = rng.choice([u'a', u'b', u'1', u'', u'on', u'a b!', u'\xe9', u' a'])
            kind = rng.choice(['none', 'str', 'str', 'bool', 'arr', 'multi', 'int', 'dict'])
            el = {'none': lambda: None, 'str': lambda: S.named(nm)(v), 'bool': lambda: Boolean.named(nm).using(true=rng.choice([u'1', u'yes']))(rng.choice([True, False, None])), 'arr': lambda: Array.named(nm).of(S)([v, u'b'][:rng.randrange(3)]),
                  'multi': lambda: MultiValue.named(nm).of(S)([v, u'c']), 'int': lambda: Integer.named(nm)(rng.choice([v, 5])), 'dict': lambda: Dict.named(u'd').of(S.named(u'k'))({u'k': v})[u'k']}[kind]()
            at = {}
            for n in ('value', 'name', 'id', 'tabindex', 'checked', 'selected', 'title'):
                if rng.random() < .25: at[n] = rng.choice([u'a', u'b', u'', u'a b!', u'9', u'on', u'1', u'yes'])
            if rng.random() < .25: at['for_'] = u'z'
            if tag == 'input' and rng.random() < .8: at['type'] = rng.choice([u'text', u'checkbox', u'radio', u'password', u'file', u'image', u'hidden', u'submit'])
            tog = dict((t, rng.choice(YES + NO + MAY)) for t in DEF if rng.random() < .35)
            contents = rng.choice([None, None, u'a', u' b ', u''])
            log.append((tag, nm, kind, el is not None and el.u, sorted(at.items()), sorted(tog.items()), contents)); H.case(log)
            kw = dict(at); kw.update(tog)
            if contents is not None: kw['contents'] = contents
            eff, forced = {}, {}
            for t in DEF:
                tt = trool(tog[t]) if t in tog else None; st = trool(sw[t]) if t in sw else None
                eff[t] = tt if tt is not None else st if st is not None else DEF[t]; forced[t] = tt is True
            u0 = None if el is None else (el.u, el.value)
            uat = dict((unicode(n.rstrip('_')), x) for n, x in at.items())
            want, wc, ti = model(tag, uat, contents, el, eff, forced, scope)
            del calls[:]
            ok, out = H.noexc('rendering', lambda: g.tag(tag, el, **kw))
            if not ok: break
            fcalls = []
            if eff['auto_filter']:
                for f in fs:
                    if f is filt: fcalls.append((tag, dict(want)))
                    elif tag in f.tags: fcalls.append(('2', tag)); want[u'data-f'] = u'1'
            H.eq(calls, fcalls, 'filters run exactly when switched on, on their tags')
            if hasattr(out, 'tagname'): out = out.__html__()
            m = TAG.match(unicode(out)) or re.match(u'\\A<([a-z0-9]+)((?: [^\\s="<>/]+="[^"<>]*")*)( /)?>()\\Z', unicode(out))
            if not H.check(m, 'well formed', out): break
            got = dict((a, unescape(b)) for a, b in ATTR.findall(m.group(2)))
            H.check(len(got) == len(ATTR.findall(m.group(2))), 'no attribute twice', out)
            H.eq(got, want, 'the attributes are exactly those the rules give')
            body = m.group(4); close = u'</%s>' % tag
            if body.endswith(close): body = body[:-len(close)]
            H.eq(body, wc or u'', 'the contents')
            H.eq(g['tabindex'], ti, 'the tab index advances by one exactly when given and positive'); scope['tabindex'] = ti
            if el is not None: H.eq((el.u, el.value), u0, 'the field is unchanged')
