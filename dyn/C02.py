# -*- coding: utf-8 -*-
# executable contracts for C02: canonical text reads back
import datetime, copy
from flatland import String, Integer, Long, Boolean, Enum, Date, Time, DateTime
import C01
def kinds():
    return [('String', String), ('String nostrip', String.using(strip=False)), ('Integer', Integer), ('Integer unsigned', Integer.using(signed=False)), ('Long', Long), ('Integer %05i', Integer.using(format=u'%05i')),
            ('Boolean', Boolean), ('Boolean words', Boolean.using(true=u'yes', false=u'no')), ('Enum', Enum.valued(u'red', u'green', u'')), ('Enum int', Enum.using(child_type=Integer).valued(1, -2, 42, 10 ** 25)),
            ('Enum date', Enum.using(child_type=Date).valued(datetime.date(2009, 10, 11), datetime.date(7, 1, 1))), ('Enum bool', Enum.using(child_type=Boolean).valued(True)), ('Date', Date), ('Time', Time), ('DateTime', DateTime), ('Date nostrip', Date.using(strip=False))]
def usable(name, x):
    """inputs the property covers"""
    if name.startswith(('Date', 'Time')) or name == 'Enum date':
        if isinstance(x, basestring) or x is None: return True
        if name.startswith('DateTime'): return type(x) is datetime.datetime and not x.microsecond
        if name.startswith('Time'): return type(x) is datetime.time and not x.microsecond
        return type(x) is datetime.date
    return True
def one(H, name, schema, x):
    a, b = schema(), schema()
    r = H.call(a.set, x)
    if r != ('ok', True): return
    if a.value is None:
        H.eq(a.u, u'', 'no value has empty text'); return
    r = H.call(b.set, a.u)
    H.check(r == ('ok', True), 'the text is accepted', (a.u, r))
    H.check(b.value == a.value, 'the text reads back as an equal value', 'value %r text %r read %r' % (a.value, a.u, b.value))
    H.eq(b.u, a.u, 'and the text is reproduced')
    c = schema(); H.check(H.call(c.set, a.value) == ('ok', True) and c.u == a.u and c.value == a.value, 'the native value itself is accepted with the same text', (a.value, c.value, c.u))
def run(H):
    H.rule = 'every round-trippable scalar kind x input pools and random values'
    rng = H.rng
    ks = kinds()
    for name, schema in ks:
        H.group(name)
        for x in C01.TEXTS + C01.OTHERS:
            if usable(name, x): H.case(x); one(H, name, schema, x)
    for k in range(H.scale(6000, 90000)):
        if not H.more(): break
        name, schema = rng.choice(ks); H.group(name)
        x = rng.choice([lambda: rng.randrange(-10 ** rng.randrange(1, 30), 10 ** rng.randrange(1, 30)), lambda: datetime.date(rng.randrange(1, 10000), rng.randrange(1, 13), rng.randrange(1, 29)),
                        lambda: datetime.time(rng.randrange(24), rng.randrange(60), rng.randrange(60)),
                        lambda: datetime.datetime(rng.randrange(1, 10000), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)),
                        lambda: u''.join(rng.choice(u' \t\n1a-.\xe9\u2003\x1c') for _ in range(rng.randrange(8))), lambda: u'%s' % rng.randrange(-999, 9999), lambda: u'%04d-%02d-%02d' % (rng.randrange(1, 10000), rng.randrange(1, 13), rng.randrange(1, 29))])()
        if usable(name, x): H.case(x); one(H, name, schema, x)
