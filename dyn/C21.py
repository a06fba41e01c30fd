# -*- coding: utf-8 -*-
# executable contracts for C21: compound fields
import datetime, re
from flatland import DateYYYYMMDD, Dict, Integer, JoinedString, List, String, Date, Boolean
D = datetime.date
def parts(e): return [e[f.name].value for f in e.field_schema]
def present(H, e, what):
    """the presented date and text are those the parts spell"""
    y, m, d = parts(e)
    try: want = D(y, m, d); text = u'%04d-%02d-%02d' % (y, m, d)
    except (ValueError, TypeError, OverflowError): want, text = None, u''
    ok, v = H.noexc(what + ': value', lambda: e.value); ok2, u = H.noexc(what + ': text', lambda: e.u)
    H.check(v == want and type(v) is type(want), what + ': the date its parts spell', (parts(e), v))
    H.check(u == text or (want is None and u == u''), what + ': the ISO text', (parts(e), u))
    return want
class Cust(DateYYYYMMDD): pass
def run(H):
    H.rule = 'random sequences of compound assignments (dates, texts, junk) and part assignments on date compounds; random splits, separators, patterns, member kinds and pruning for joined strings; against references'
    rng = H.rng
    H.group('dates')
    for k in range(H.scale(3500, 80000)):
        if not H.more(): break
        S = rng.choice([DateYYYYMMDD.named(u'd'), DateYYYYMMDD.named(u'd').using(optional=True), DateYYYYMMDD.named(u'e').using(field_schema=[Integer.named(u'yy')]), DateYYYYMMDD.named(u'e').using(field_schema=[Integer.named(u'Y').using(format=u'%i'), Integer.named(u'M'), Integer.named(u'Dd')])])
        e = S(); log = []
        H.case('new'); present(H, e, 'new')
        for j in range(rng.randrange(1, 7)):
            op = rng.choice(['set', 'set', 'attr', 'u', 'part', 'part', 'parts', 'default', 'flat'])
            if op in ('set', 'attr', 'u'):
                x = rng.choice([D(rng.choice([1, 999, 1000, 2000, 2024, 9999]), rng.randrange(1, 13), rng.randrange(1, 29)), D(2000, 2, 29), u'2001-02-03', u'1999-12-31', u' 2001-02-03 ', u'2001-02-30', u'2001-13-01', u'0000-01-01', u'junk', u'', None, 5, -1, [], [1, 2], {}, {u'year': 1}, object(), True, 2.5, 'caf\xc3\xa9', u'caf\xe9', u'20010203', u'2001-2-3', datetime.datetime(2003, 4, 5, 6, 7), datetime.time(1, 2), u'2001-02-03\n', u'x2001-02-03', u'12001-02-03', D])
                log.append((op, x)); H.case([f.name for f in S.field_schema], log)
                ref = Date(); ok = ref.set(x); want = ref.value
                if op == 'set': o, r = H.noexc('set', e.set, x); H.check(r is True or r is False, 'set answers yes or no', r)
                elif op == 'attr': H.noexc('value assignment', setattr, e, 'value', x)
                else: H.noexc('text assignment', setattr, e, 'u', x)
                if ok and want is not None: H.eq(parts(e), [want.year, want.month, want.day], 'a date or ISO text distributes its parts')
                else: H.check(parts(e) == [None] * 3 and [e[f.name].u for f in e.field_schema] == [u''] * 3, 'anything else blanks all parts', [(e[f.name].value, e[f.name].u) for f in e.field_schema])
            elif op == 'part':
                f = rng.choice(list(e.field_schema)); x = rng.choice([1, 2, 12, 13, 31, 0, -1, 2001, 10000, 10 ** 30, None, u'', u'7', u'x', u'\u0663', u'007', True])
                log.append((op, f.name, x)); H.case(log); H.noexc('part', e[f.name].set, x)
            elif op == 'parts':
                x = [rng.choice([2001, 1, 9999, 10000, 0]), rng.choice([1, 2, 12, 13]), rng.choice([1, 28, 29, 30, 31])]; log.append((op, x)); H.case(log)
                for f, y in zip(e.field_schema, x): e[f.name].set(y)
            elif op == 'default': log.append(op); H.case(log); H.noexc('reset', e.set_default) if S.default is not None else None
            else:
                x = [(u'%s_%s' % (e.name, f.name), rng.choice([u'2', u'2001', u'11', u''])) for f in e.field_schema if rng.random() < .8]; log.append((op, x)); H.case(log); H.noexc('set_flat', e.set_flat, x)
            want = present(H, e, op)
            H.check(repr(e) is not None, 'representable')
            if want is not None:
                e2 = S(want); H.check(parts(e2) == parts(e) and e2.value == want and e2.u == e.u, 'round trip'); e3 = S(e.u); H.check(e3.value == want, 'text round trip', e.u)
    H.group('joined strings')
    for k in range(H.scale(5000, 100000)):
        if not H.more(): break
        sep = rng.choice([u',', u', ', u'|', u'--', u' ', u'ab', u'.'])
        rx = rng.choice([None, None, re.compile(u'\\s*,\\s*'), re.compile(u'[|,;]'), re.compile(u'\\d')])
        M = rng.choice([String, String, Integer, Boolean, String.using(strip=False)]); prune = rng.random() < .5
        S = JoinedString.named(u'j').using(separator=sep, separator_regex=rx, prune_empty=prune).of(M)
        e = S(); log = []
        for j in range(rng.randrange(1, 4)):
            if rng.random() < .7:
                s = u''.join(rng.choice([u'a', u'1', u'22', sep, sep, u',', u' ', u'x', u'', u'|', u'on', u'caf\xe9']) for _ in range(rng.randrange(0, 8))); x = s
                vals = rx.split(s) if rx else s.split(sep)
            else:
                vals = [rng.choice([u'a', u'', u'1', None, 2, 0, u' ']) for _ in range(rng.randrange(0, 4))]; x = rng.choice([list, tuple, iter, lambda v: dict.fromkeys(v)])(vals)
                if isinstance(x, dict): vals = list(x)
            log.append((x if not hasattr(x, 'next') else ('iter', vals))); H.case(sep, rx and rx.pattern, M.__name__, prune, log)
            kept = [v for v in vals if not (prune and not v)]; refs = []; good = True
            for v in kept:
                m = M(); good = m.set(v) and good; refs.append(m)
            ok, r = H.noexc('set', e.set, x)
            H.check(r is good, 'succeeds exactly when every part is accepted', (r, good))
            H.eq([(m.u, m.value) for m in e], [(m.u, m.value) for m in refs], 'split on the separator, blank parts dropped exactly when pruning')
            H.check(all(isinstance(m, M) and m.parent is e for m in e), 'members are elements of the member schema')
            if rng.random() < .4:
                op = rng.choice(['append', 'del', 'child', 'extend', 'reverse']); log.append(op)
                if op == 'append': e.append(rng.choice([u'q', u'5', u'']))
                elif op == 'extend': e.extend([u'1', u'z'])
                elif op == 'reverse': e.reverse()
                elif len(e) and op == 'del': del e[rng.randrange(len(e))]
                elif len(e): e[rng.randrange(len(e))].set(u'9')
                H.case(sep, log)
            ok, v = H.noexc('value', lambda: e.value); want = sep.join(m.u for m in e)
            H.check(v == want and isinstance(v, unicode), 'the members\' texts joined by the separator', (v, want)); H.eq(e.u, want, 'the text is the same')
        if rx is None and len(sep) > 0 and M is String:
            e2 = S(e.u); H.check(e2.u == e.u or any(m.u == u'' or sep in m.u or sep.strip() != sep or any(c in sep for c in m.u) for m in e), 'text round trip', (e.u, e2.u))
    H.case('readonly'); e = JoinedString(u'a,b'); H.raises(AttributeError, 'value is read-only', setattr, e, 'value', u'x'); H.raises(AttributeError, 'text is read-only', setattr, e, 'u', u'x')
    H.case('in a form'); F = Dict.of(DateYYYYMMDD.named(u'd'), JoinedString.named(u'j')); f = F({u'd': D(2001, 2, 3), u'j': u'a,b'}); H.eq(f.value, {u'd': D(2001, 2, 3), u'j': u'a,b'}, 'as fields')
