# -*- coding: utf-8 -*-
# executable contracts for C19: message expansion
from six.moves import builtins
from flatland import Dict, Integer, List, String
from flatland.validation.base import Validator, as_format_mapping
MISS = object()
class State(object): pass
class Both(object):
    """offers items and attributes"""
    def __init__(self, items): self.i = items
    def __getitem__(self, k): return self.i[k]
class Tr(object):
    def __init__(self, tag, log): self.tag, self.log = tag, log
    def __call__(self, v): self.log.append((self.tag, v)); return u'%s(%s)' % (self.tag, v) if isinstance(v, basestring) and not v.lstrip('-').isdigit() else unicode(v)   # like gettext, leave numbers alone
class NTr(object):
    def __init__(self, tag, log): self.tag, self.log = tag, log
    def __call__(self, s, p, n): self.log.append((self.tag, n)); return u'%s[%s]' % (self.tag, s if n == 1 else p)
def offers(t, n):
    """what one source provides for a name"""
    if t is None: return MISS
    try: return t[n]
    except (LookupError, TypeError, AttributeError): pass
    return getattr(t, n, MISS)
class Msg(Validator):
    alpha = u'A-validator'
    cnt = 7
    own = u'O-validator'
    note = u'%(label)s: %(own)s'
    empty = u''
    blank = None
def run(H):
    H.rule = 'random messages (text, plural triples, callables), states (objects, dictionaries, None, odd values), translators at every level, and extra arguments, against a reference expansion'
    rng = H.rng
    H.group('expansion')
    for k in range(H.scale(6000, 120000)):
        if not H.more(): break
        names = ['alpha', 'cnt', 'own', 'label', 'name', 'u', 'extra', 'stateval', 'value']
        tlog = []; desc = []
        # the tree
        inner = String.named(u's').using(label=rng.choice([u'L', u'The Label']))
        mid = rng.choice([Dict, List]); S = Dict.named(u'top').of((List.named(u'mid').of(inner)) if mid is List else Dict.named(u'mid').of(inner))
        top = S(); top.set({u'mid': [u'val'] if mid is List else {u's': u'val'}}); m = top[u'mid']; el = m[0] if mid is List else m[u's']
        ug = un = None; lv = None
        for t, e in (('el', el), ('mid', m), ('top', top)):
            if rng.random() < .2: e.ugettext = Tr('ug-' + t, tlog); desc.append('ug ' + t); ug = ug or e.ugettext
            if rng.random() < .2: e.ungettext = NTr('un-' + t, tlog); desc.append('un ' + t); un = un or e.ungettext
        bi = []
        if rng.random() < .2: bi.append('ugettext'); builtins.ugettext = Tr('ug-builtin', tlog); ug = ug or builtins.ugettext
        if rng.random() < .2: bi.append('ungettext'); builtins.ungettext = NTr('un-builtin', tlog); un = un or builtins.ungettext
        desc += bi
        st = rng.choice(['none', 'obj', 'dict', 'both', 'list', 'text', 'int', 'obj', 'dict'])
        vals = dict((n, rng.choice([u'st-' + n, 5, 1])) for n in names if rng.random() < .25)
        if 'cnt' in vals: vals['cnt'] = rng.choice([1, 2, 1, u'1', 0, -1, u'-1', u'0'])
        if rng.random() < .15: vals['ugettext'] = ug = Tr('ug-state', tlog)
        if rng.random() < .15: vals['ungettext'] = un = NTr('un-state', tlog)
        if st in ('dict', 'both'): state = dict(vals) if st == 'dict' else Both(vals)
        elif st == 'obj':
            state = State(); state.__dict__.update(vals)
        else:
            state = {'none': None, 'list': [1], 'text': u'abc', 'int': 5}[st]; 
            if 'ugettext' in vals: ug = [x for x in [getattr(y, 'ugettext', None) for y in (el, m, top)] + [getattr(builtins, 'ugettext', None)] if x] or [None]; ug = ug[0]
            if 'ungettext' in vals: un = [x for x in [getattr(y, 'ungettext', None) for y in (el, m, top)] + [getattr(builtins, 'ungettext', None)] if x] or [None]; un = un[0]
        extra = dict((n, rng.choice([u'x-' + n, 9])) for n in ('alpha', 'extra', 'label', 'own') if rng.random() < .3)
        if rng.random() < .3: extra['cnt'] = rng.choice([1, 2, 0, 1, 3, -1, -2, 11, 21])
        v = Msg(); 
        if rng.random() < .4: v.alpha = u'A-instance'
        if rng.random() < .3: v.cnt = rng.choice([1, 4])
        used = rng.sample(['alpha', 'own', 'label', 'u', 'name', 'cnt'] + (['extra'] if 'extra' in extra else []), rng.randrange(0, 4))
        fmt = lambda pre: pre + u' ' + u' '.join(u'%%(%s)s' % n for n in used) + rng.choice([u'', u'%%'])
        form = rng.choice(['text', 'text', 'plural', 'plural'])
        if form == 'text': message = fmt(u'M')
        else: message = (fmt(u'one'), fmt(u'many'), rng.choice(['cnt', 'cnt', 'cnt', 'nowhere']))
        called = []
        real = message
        if rng.random() < .3:
            message = lambda e_, s_: called.append((e_, s_)) or real
            desc.append('callable')
        H.case(desc, st, vals, sorted(extra.items()), real, sorted(v.__dict__.items()))
        try: r = H.call(v.expand_message, el, state, message, **extra)
        finally:
            for b in bi: delattr(builtins, b)
        # reference
        def lookup(n):
            for t in (extra, state, v, el):
                x = offers(t, n)
                if x is not MISS: return x
            return MISS
        def shown(n):
            x = lookup(n); return ug(x) if ug else x
        del tlog[:]
        fmap = dict((n, shown(n)) for n in set(used) | set(['cnt']))
        if isinstance(real, tuple):
            n = int(fmap['cnt']) if real[2] == 'cnt' else real[2]
            if un: text = un(real[0], real[1], n)
            elif ug: text = ug(real[0] if n == 1 else real[1])
            else: text = real[0] if n == 1 else real[1]
        else: text = ug(real) if ug else real
        H.eq(r, ('ok', text % fmap), 'the message is expanded from the first source that provides each name, and translated')
        H.check(not ('callable' in desc) or [(a is el, b is state) for a, b in called] == [(True, True)], 'a callable message is called once with element and state', called)
    H.group('missing names')
    H.case('missing'); H.raises(KeyError, 'a name nobody offers', Msg().expand_message, String.named(u'x')(), None, u'%(nope)s')
    H.group('recording')
    for k in range(H.scale(1500, 30000)):
        el = String.named(u'f')(u'v'); v = Msg(); model = {'errors': [], 'warnings': []}; log = []
        for j in range(rng.randrange(1, 8)):
            which = rng.choice(['errors', 'warnings']); f = v.note_error if which == 'errors' else v.note_warning
            key = rng.choice(['note', 'own', 'alpha', 'empty', 'blank', None]); msg = rng.choice([None, None, u'lit', u'other', u'%(label)s!', u''])
            if key is None and not msg: continue
            kw = {'own': u'ext'} if rng.random() < .3 else {}
            form = rng.choice(['kw', 'pos']); log.append((which, key, msg, kw, form)); H.case(log)
            r = H.call(f, el, None, key=key, message=msg, **kw) if form == 'kw' else H.call(f, el, None, key, msg, **kw)
            H.check(r == ('ok', False) and r[1] is False, 'recording a message always yields False', r)
            text = msg or getattr(Msg, key)
            if text:
                text = text % {'label': u'f', 'own': kw.get('own', u'O-validator')}
                if text not in model[which]: model[which].append(text)
            H.eq((list(el.errors), list(el.warnings)), (model['errors'], model['warnings']), 'messages in order without duplicates, on the right list')
    H.group('instances override')
    H.case('override'); el = String.named(u'f')(); Msg(note=u'inst').note_error(el, None, 'note'); H.eq(list(el.errors), [u'inst'], 'the validator\'s own attribute'); H.raises(AttributeError, 'an unknown key', Msg().note_error, el, None, 'bogus')
    H.group('format mapping')
    for k in range(H.scale(800, 15000)):
        ts = []
        for j in range(rng.randrange(0, 4)):
            t = rng.choice(['dict', 'obj', 'none', 'both', 'list', 'cls']); d = dict((n, '%s%d' % (n, j)) for n in 'abc' if rng.random() < .4)
            if t == 'dict': ts.append(d)
            elif t == 'obj': o = State(); o.__dict__.update(d); ts.append(o)
            elif t == 'both': o = Both(d); o.__dict__.update(dict((n, 'attr%d' % j) for n in 'abc' if rng.random() < .4)); ts.append(o)
            elif t == 'list': ts.append([1])
            elif t == 'cls': ts.append(type('C', (), d))
            else: ts.append(None)
        f = as_format_mapping(*ts); g = as_format_mapping(*ts, transform=lambda x: (x,)); H.case([(type(t).__name__, getattr(t, '__dict__', t)) for t in ts])
        for n in 'abcd':
            want = MISS
            for t in ts:
                want = offers(t, n)
                if want is not MISS: break
            if want is MISS:
                H.raises(KeyError, 'no source', lambda: f[n]); H.check(n not in f, 'not contained'); H.raises(KeyError, 'no source', lambda: g[n])
            else: H.check(f[n] is want and n in f, 'the first source that offers it', (n, f[n], want)); H.check(g[n] == (want,), 'transformed', (n, g[n]))
    H.case('kw'); H.raises(TypeError, 'unknown keyword', as_format_mapping, bogus=1)
