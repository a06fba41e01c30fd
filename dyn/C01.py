# -*- coding: utf-8 -*-
# executable contracts for C01: raw, value and text are updated in tandem
import datetime, decimal
from flatland import String, Integer, Long, Float, Decimal, Boolean, Enum, Constrained, Date, Time, DateTime
D = decimal.Decimal
FAIL = object()
NAN = float('nan'); INF = float('inf')
TEXTS = [u'', u' ', u'x', u' x ', u'\t1\n', u'0', u'1', u'-1', u'+7', u'007', u'1.5', u'-0.25', u'1e3', u'nan', u'inf', u'-inf', u'sNaN', u'NaN', u'on', u'off', u'true', u'True', u'TRUE', u'False', u'false',
         u'yes', u'no', u'caf\xe9', u'\u0663', u'\u2003z\u2003', u'2009-10-11', u' 2009-10-11 ', u'2009-13-01', u'2009-02-30', u'0000-01-01', u'9999-12-31', u'2009-1-1', u'12:34:56', u'24:00:00', u'23:59:60',
         u'2009-10-11 12:34:56', u'2009-10-11T12:34:56', u'2009-10-11 12:34', u'99999999999999999999', u'red', u'green', u' red', u'None', u'1_0', u'0x10', u'1L', u'10 0', u'%s', u'a\x00b', u'--1', u'1,5']
OTHERS = [None, 0, 1, -1, 42, 10 ** 25, -10 ** 25, 2 ** 31, 2 ** 63, 0.0, 1.5, -0.5, 1e300, NAN, INF, -INF, True, False, D('1.5'), D('-3'), D('NaN'), D('sNaN'), D('Infinity'), D('1E+40'), D('0'),
          datetime.date(2001, 2, 3), datetime.date(1, 1, 1), datetime.datetime(2001, 2, 3, 4, 5, 6), datetime.datetime(2001, 2, 3, 4, 5, 6, 789), datetime.time(7, 8, 9), datetime.time(0, 0), [], [1], [u'a'], (), (1, 2),
          (0, (1, 5), -1), {}, {u'a': 1}, set(), set([1]), frozenset([u'x']), 'abc', 'x', '', ' 5 ', '5', 'caf\xc3\xa9', '\xff', 'red', 'on', '2009-10-11', '12:34:56', datetime.timedelta(1), xrange(3)]

def utext(x):
    try: return unicode(x)
    except UnicodeDecodeError: return unicode(x, errors='replace')
def is_text(x): return isinstance(x, basestring)
def digits(s, lens, seps):
    """fixed-width ASCII digit groups separated by seps, or None"""
    out = []; i = 0
    for k, n in enumerate(lens):
        if k:
            if s[i:i + 1] != seps[k - 1]: return None
            i += 1
        g = s[i:i + n]
        if len(g) != n or not all(ch in u'0123456789' for ch in g): return None
        out.append(int(g)); i += n
    return out if i == len(s) else None

def o_string(strip):
    def f(x):
        if x is None: return None
        try: u = unicode(x)
        except UnicodeDecodeError: return FAIL
        return u.strip() if strip else u
    return f
def o_number(T, signed):
    def f(x):
        if x is None: return None
        if is_text(x): x = x.strip()
        try:
            n = T(x)
            if T is D and n.is_snan(): return FAIL
            if not signed and n < 0: return FAIL
        except (ValueError, TypeError, ArithmeticError): return FAIL
        return n
    return f
def s_number(T, fmt):
    def f(v): return fmt % v if type(v) is T else unicode(v)
    return f
def o_bool(true, false, ts, fs):
    def f(x):
        if not is_text(x): return bool(x)
        if x == true or x in ts: return True
        if x == false or x in fs: return False
        return FAIL
    return f
def o_enum(child, values):
    def f(x):
        v = child(x)
        return FAIL if v is FAIL or not any(v == w for w in values) else v
    return f
def o_temporal(T, lens, seps, strip=True):
    def f(x):
        if x is None or isinstance(x, T): return x
        if not is_text(x): return FAIL
        if strip: x = x.strip()
        try: g = digits(x, lens, seps)
        except UnicodeDecodeError: return FAIL
        if g is None: return FAIL
        try: return T(*g)
        except ValueError: return FAIL
    return f
def s_date(v): return u'%04d-%02d-%02d' % (v.year, v.month, v.day)
def s_time(v): return u'%02d:%02d:%02d' % (v.hour, v.minute, v.second)
def s_dt(v): return s_date(v) + u' ' + s_time(v)
DL, TL = ([4, 2, 2], u'--'), ([2, 2, 2], u'::')

def kinds():
    out = []
    for strip in (True, False):
        out.append(('String strip=%s' % strip, String.using(strip=strip), o_string(strip), (lambda st: lambda v: v.strip() if st else v)(strip)))
    for signed in (True, False):
        for S, T, fmt in ((Integer, int, u'%i'), (Long, int, u'%i'), (Float, float, u'%f'), (Decimal, D, u'%f')):
            out.append(('%s signed=%s' % (S.__name__, signed), S.using(signed=signed), o_number(T, signed), s_number(T, fmt)))
    out.append(('Integer format', Integer.using(format=u'%05i'), o_number(int, True), s_number(int, u'%05i')))
    out.append(('Float format', Float.using(format=u'%.2f'), o_number(float, True), s_number(float, u'%.2f')))
    B = Boolean
    out.append(('Boolean', B, o_bool(u'1', u'', B.true_synonyms, B.false_synonyms), lambda v: u'1' if v else u''))
    out.append(('Boolean words', B.using(true=u'yes', false=u'no', true_synonyms=(u'y', u'on'), false_synonyms=(u'n',)), o_bool(u'yes', u'no', (u'y', u'on'), (u'n',)), lambda v: u'yes' if v else u'no'))
    out.append(('Enum', Enum.valued(u'red', u'green'), o_enum(o_string(True), [u'red', u'green']), lambda v: v))
    out.append(('Enum none', Enum.valued(), o_enum(o_string(True), []), lambda v: v))
    out.append(('Enum with None', Enum.valued(u'red', None), o_enum(o_string(True), [u'red', None]), lambda v: v))
    out.append(('Enum of Integer', Enum.using(child_type=Integer).valued(1, 2, 42), o_enum(o_number(int, True), [1, 2, 42]), s_number(int, u'%i')))
    out.append(('Enum of Date', Enum.using(child_type=Date).valued(datetime.date(2009, 10, 11)), o_enum(o_temporal(datetime.date, *DL), [datetime.date(2009, 10, 11)]), s_date))
    big = lambda el, v: v is not None and v > 0
    def o_con(x):
        v = o_number(int, True)(x)
        return FAIL if v is FAIL or v is None or not v > 0 else v
    out.append(('Constrained', Constrained.using(child_type=Integer, valid_value=big), o_con, s_number(int, u'%i')))
    out.append(('Date', Date, o_temporal(datetime.date, *DL), s_date))
    out.append(('Date nostrip', Date.using(strip=False), o_temporal(datetime.date, *DL, **{'strip': False}), s_date))
    out.append(('Time', Time, o_temporal(datetime.time, *TL), s_time))
    out.append(('DateTime', DateTime, o_temporal(datetime.datetime, [4, 2, 2, 2, 2, 2], u'-- ::'), s_dt))
    return out

def same(a, b):
    if a is None or b is None: return a is b
    if type(a) is not type(b) and not (isinstance(a, basestring) and isinstance(b, basestring)): return False
    try:
        if a != a and b != b: return True
    except Exception: return a is b
    return a == b

def one(H, el, x, adapt, ser, how):
    want = adapt(x)
    r = H.call(el.set, x) if how == 'set' else None
    if how == 'init':
        ok, el = H.noexc('constructing with a value', el, x)
        if not ok: return None
    elif not H.check(r[0] == 'ok', 'set never raises', r): return None
    H.check(el.raw is x or same(el.raw, x), 'the raw value is the exact input', el.raw)
    if want is FAIL:
        if how == 'set': H.check(r[1] is False, 'failure is reported as False', r)
        H.check(el.value is None, 'no native value after a failure', el.value)
        H.eq(el.u, u'' if x is None else utext(x), 'text is the unicode form of the rejected input')
    else:
        if how == 'set': H.check(r[1] is True, 'success is reported as True', (r, want))
        H.check(same(el.value, want), 'native value is the adaptation of the input', 'got %r, expected %r' % (el.value, want))
        wu = u'' if want is None else ser(want)
        H.eq(el.u, wu, 'text is the serialization of the native value')
    H.check(isinstance(el.u, unicode), 'text is unicode', type(el.u))
    return el

def replay_Scalar_set(H, model): pass

def run(H):
    H.rule = 'every scalar kind x every input of a fixed pool and random numbers/texts, in random histories of assignments; oracle written from the documentation'
    ks = kinds()
    pool = TEXTS + OTHERS
    for name, schema, adapt, ser in ks:
        H.group(name)
        el = schema(); el0 = schema(); H.case('fresh')
        H.check(el.value is None and el.u == u'', 'a new element is blank')
        for x in pool:
            H.case(x); one(H, el, x, adapt, ser, 'set')
        for x in pool:
            H.case('init', x); one(H, schema, x, adapt, ser, 'init')
        H.check(el0.value is None and el0.u == u'', 'other elements are untouched')
    rng = H.rng
    for k in range(H.scale(3000, 60000)):
        if not H.more(): break
        name, schema, adapt, ser = rng.choice(ks); H.group(name); el = schema()
        for _ in range(rng.randrange(1, 5)):
            x = rng.choice([lambda: rng.choice(pool), lambda: rng.randrange(-10 ** 6, 10 ** 6), lambda: unicode(rng.randrange(-9999, 9999)), lambda: rng.uniform(-1e6, 1e6), lambda: u'%.3f' % rng.uniform(-99, 99),
                            lambda: datetime.date(rng.randrange(1, 9999), rng.randrange(1, 13), rng.randrange(1, 29)), lambda: u'%04d-%02d-%02d' % (rng.randrange(10000), rng.randrange(14), rng.randrange(33)),
                            lambda: u'%02d:%02d:%02d' % (rng.randrange(26), rng.randrange(62), rng.randrange(62)), lambda: u''.join(rng.choice(u' \t1a-.:\xe9') for _ in range(rng.randrange(8)))])()
            H.case(x); one(H, el, x, adapt, ser, 'set')
