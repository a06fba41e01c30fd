# -*- coding: utf-8 -*-
# executable contracts for C24: email, URL and phone validators
import re, urlparse
from java.lang import Throwable
from flatland import String, Integer, Long
from flatland.validation import network, IsEmail, URLValidator, HTTPURLValidator, URLCanonicalizer, NANPphone
def verdict(H, v, e, want, what):
    del e.errors[:]
    ok, r = H.noexc(what, v, e, None)
    if not ok: return
    H.check(r is want, what + ': accepts exactly well-formed input', (e.u, r, want))
    H.check(len(e.errors) == (0 if want else 1), 'one message exactly on rejection', e.errors)
def email_ok(text, non_local, local_rx):
    if len([c for c in text if c == u'@']) != 1: return False
    i = text.index(u'@'); local, dom = text[:i], text[i + 1:]
    if local.strip() == u'': return False
    if local_rx is not None and not local_rx.match(local): return False
    try: ascii_ = dom.encode('idna')
    except UnicodeError: return False
    if len(ascii_) > 253 or not ascii_: return False
    labels = ascii_.split('.')
    for l in labels:
        if not l or len(l) > 63: return False
        for c in l:
            if c not in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-': return False
    return len(labels) > 1 or not non_local
PARTS = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
def url(rng):
    return u''.join([rng.choice([u'http', u'https', u'ftp', u'HTTP', u'ssh', u'', u'x-y', u'javascript']), rng.choice([u'://', u':', u'//', u':/', u'']), rng.choice([u'', u'user@', u'user:pw@', u':pw@', u'@']),
        rng.choice([u'example.com', u'', u'[::1]', u'[::1', u'ex ample', u'caf\xe9.com', u'EXAMPLE.com', u']', u'1.2.3.4']), rng.choice([u'', u':80', u':x', u':99999999', u':', u':-1', u':\u0663']), rng.choice([u'', u'/', u'/p/q', u'/\xe9', u'/a b']), rng.choice([u'', u';par', u';']),
        rng.choice([u'', u'?q=1', u'?']), rng.choice([u'', u'#frag', u'#']), rng.choice([u'', u' ', u'\n', u''])])
def junk(rng): return u''.join(rng.choice([u'[', u']', u'@', u':', u'/', u'.', u'\x00', u'%', u'a', u'1', u'\u2028', u'\uff0e', u'\u3002', u'-', u' ', u'\xdf', u'\u0130', u'x' * 70, u'#', u'?', u';', u'(', u'x', u'\u0663']) for _ in range(rng.randrange(0, 9)))
def dstr(s):
    """the decimal digits of a text as ASCII"""
    import unicodedata
    out = []
    for c in s:
        if unicodedata.category(c) == 'Nd' if len(c) == 1 else False: out.append('%d' % unicodedata.digit(c))
    return ''.join(out)
def run(H):
    H.rule = 'addresses, URLs and phone numbers assembled from significant pieces, with label and length bounds hit exactly, plus arbitrary junk text, against independent recognizers'
    rng = H.rng
    S = String.named(u'e').using(strip=False)
    H.group('email')
    local_rxs = [None, None, None, re.compile(u'^[a-z.]+$'), re.compile(u'a')]
    for k in range(H.scale(5000, 100000)):
        if not H.more(): break
        local = rng.choice([u'a', u'', u' ', u'a b', u'\xe9', u'"x"', u'.', u'\t\n', u'abc', u'+', u'\u2003', u'A'])
        n = rng.choice([1, 2, 62, 63, 64, 5])
        label = lambda: rng.choice([u'a' * n, u'x-y', u'-', u'com', u'caf\xe9', u'', u'a_b', u'EX', u'1', u'a b', u'b\xfccher', u'\u0663', u'\u4f60', u'xn--caf-dma'])
        dom = u'.'.join(label() for _ in range(rng.randrange(0, 5)))
        if rng.random() < .2:
            L = rng.choice([252, 253, 254, 255]); dom = u'.'.join([u'a' * 60] * 4 + [u'b' * (L - 244)])
        at = rng.choice([u'@', u'@', u'@', u'@', u'', u'@@']); t = local + at + dom + rng.choice([u'', u'', u'', u'', u'\n', u' ', u'.', u'@'])
        if rng.random() < .1: t = junk(rng)
        nl = rng.choice([True, True, False]); rx = rng.choice(local_rxs)
        H.case(t, nl, rx and rx.pattern)
        e = S(t); v = IsEmail(non_local=nl, local_part_pattern=rx)
        try: want = email_ok(e.u, nl, rx)
        except Throwable:
            # the runtime's IDN codec raises a Java exception; see known_findings.txt
            r = H.call(v, e, None)
            if r[0] == 'exc': H.fail('email: raises a Java exception for a domain label the IDN codec finds too long', r, 'idna-java' if r[1].startswith('java:java.lang.IllegalArgument') else None)
            else: H.check(r[1] is False, 'email: an unconvertible domain is rejected', r)
            continue
        verdict(H, v, e, email_ok(e.u, nl, rx), 'email'); H.check(e.u == t, 'the text is kept')
    H.group('URLs')
    for k in range(H.scale(5000, 100000)):
        if not H.more(): break
        t = url(rng) if rng.random() < .9 else junk(rng); e = S(t)
        kw = {}
        if rng.random() < .5: kw['allowed_schemes'] = rng.choice([('*',), ('http', 'https'), ('ftp',), ['ssh', 'http']])
        if rng.random() < .5: kw['allowed_parts'] = rng.choice([set(PARTS), ('scheme', 'netloc'), ['scheme', 'netloc', 'path'], set(PARTS) - set(['fragment']), ('scheme', 'path', 'query', 'params')])
        H.case('URLValidator', t, sorted(kw.items()))
        try: p = urlparse.urlparse(t.strip())
        except ValueError: p = None
        sch = kw.get('allowed_schemes', ('*',)); al = kw.get('allowed_parts', PARTS)
        want = p is not None and p.scheme != '' and (tuple(sch) == ('*',) or p.scheme in sch) and all(x in al or getattr(p, x) == '' for x in PARTS)
        verdict(H, URLValidator(**kw), e, want, 'URL')
        H.check(e.value == t, 'the value is kept')
        # http
        kw = {}
        if rng.random() < .4: kw['required_parts'] = rng.choice([{}, {'scheme': True}, {'path': True, 'scheme': ('http',)}, {'port': True}, {'port': ('80', '443')}, {'fragment': True}, {'hostname': ('example.com', '')}, {'query': ('q=1',)}, {'username': True}])
        if rng.random() < .4: kw['forbidden_parts'] = rng.choice([{}, {'port': True}, {'fragment': True, 'query': True}, {'scheme': ('ftp',)}, {'port': ('80',)}, {'hostname': ('example.com',)}, {'path': ('/', '')}])
        H.case('HTTPURLValidator', t, sorted(kw.items()))
        req = kw.get('required_parts', {'scheme': ('http', 'https'), 'hostname': True}); forb = kw.get('forbidden_parts', {'username': True, 'password': True})
        want = True; p = None
        try:
            p = urlparse.urlparse(t); vals = {}
            for x in ('scheme', 'username', 'password', 'hostname', 'port', 'path', 'params', 'query', 'fragment'): vals[x] = getattr(p, x)
            if vals['port'] is not None: vals['port'] = '%d' % vals['port']
        except ValueError:
            vals = None; want = False
        if vals is not None:
            for x, r in req.items():
                if r is True: want = want and bool(vals[x])
                elif r: want = want and vals[x] in r
            for x, r in forb.items():
                if r is True: want = want and not vals[x]
                elif r: want = want and not (vals[x] in r)
        verdict(H, HTTPURLValidator(**kw), S(t), want, 'HTTP URL')
        # canonicalizer
        disc = rng.choice([('fragment',), ('fragment',), (), ('query', 'fragment'), ('params',), ('scheme',), ('netloc', 'path'), PARTS])
        H.case('URLCanonicalizer', t, disc); c = S(t)
        try: p = list(urlparse.urlparse(t))
        except ValueError: p = None
        v = URLCanonicalizer() if disc == ('fragment',) else URLCanonicalizer(discard_parts=disc)
        verdict(H, v, c, p is not None or not disc, 'canonicalizer')
        if p is None or not disc: H.eq(c.value, t, 'nothing changes')
        else:
            for x in disc: p[PARTS.index(x)] = ''
            H.eq(c.value, urlparse.urlunparse(p), 'only the discarded parts change')
    H.case('none'); e = S(None); verdict(H, URLValidator(), e, False, 'no URL'); verdict(H, HTTPURLValidator(), e, True, 'no URL'); verdict(H, URLCanonicalizer(), S(None), H.call(URLCanonicalizer(), S(None), None)[1] is True, 'no URL')
    H.group('phone')
    for k in range(H.scale(5000, 100000)):
        if not H.more(): break
        n = rng.choice([0, 9, 10, 10, 10, 11, 12, 14, 16, 3]); ds = [rng.choice(u'0123456789' if rng.random() < .9 else u'\u0660\u0663\uff19') for _ in range(n)]
        t = u''.join(rng.choice([u'', u'', u'', u'-', u' ', u'(', u')', u'.', u'x', u'+']) + d for d in ds) + rng.choice([u'', u' ', u'x'])
        if rng.random() < .1: t = junk(rng)
        ext = rng.choice([False, True, 'strip', None])
        e = S(t); H.case(t, ext)
        d = dstr(t); want = len(d) >= 10 and (len(d) == 10 or bool(ext))
        v = NANPphone() if ext is None else NANPphone(extensions=ext)
        verdict(H, v, e, want, 'phone')
        if not want: H.eq((e.u, e.value), (t, t), 'a rejected number is kept')
        else:
            out = u'(%s) %s-%s' % (d[:3], d[3:6], d[6:10])
            if len(d) > 10 and ext != 'strip': out += u' x%d' % int(d[10:])
            H.eq((e.u, e.value), (out, out), 'rewritten in standard form')
            if len(d) == 10 or ext == 'strip':
                e2 = S(e.u); verdict(H, v, e2, True, 'standard form is accepted'); H.eq(e2.u, out, 'and stable')
