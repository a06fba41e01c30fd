# -*- coding: utf-8 -*-
# executable contracts for C07: List._set_flat
from flatland import List, String, Integer, Dict, Array
LOG = []
class Rec(String):
    """records the pairs its owner hands over"""
    def __init__(self, *a, **kw):
        self.got = None
        String.__init__(self, *a, **kw)
    def set_flat(self, pairs, sep=u'_'):
        self.got = (list(pairs), sep)
        return String.set_flat(self, pairs, sep)
def parse(name, sep, key):
    """(index, rest) when the key addresses a member, written without regular expressions"""
    if key is None: return None
    prefix = (name + sep) if name else u''
    if not key.startswith(prefix): return None
    rest = key[len(prefix):]
    n = 0
    while n < len(rest) and rest[n] in u'0123456789': n += 1
    if not n: return None
    tail = rest[n:]
    if tail == u'': return int(rest[:n]), None
    if tail.startswith(sep): return int(rest[:n]), tail[len(sep):] or None
    return None
def one(H, name, member, sep, prune, cap, pairs, old):
    C = List.named(name).of(member).using(prune_empty=prune, maximum_set_flat_members=cap)
    el = C()
    el.set(old)
    r = H.call(el.set_flat, list(pairs), sep)
    if not H.check(r[0] == 'ok', 'restoring never raises', r): return
    idx = {}
    for k, v in pairs:
        if prune and v == u'': continue
        p = parse(name, sep, k)
        if p is None: continue
        idx.setdefault(p[0], []).append((p[1], v))
    if prune: want = [idx[i] for i in sorted(idx)][:cap]
    else: want = [idx.get(i) for i in range(min(max(idx) + 1, cap))] if idx else []
    if not H.check(len(el) == len(want), 'number of members', 'got %d expected %d' % (len(el), len(want))): return
    for i, w in enumerate(want):
        m = el[i]
        if member.__mro__[1] is Rec or member is Rec:
            H.eq(m.got, None if w is None else (w, sep), 'pairs handed to member %d' % i)
            first = [v for k, v in (w or []) if k == m.name]
            H.eq(m.u, first[0].strip() if first else u'', 'value of member %d' % i)
        H.eq(m.parent.name, u'%d' % i, 'numbering')
        H.check(m.root is el, 'parent chain')
def run(H):
    H.rule = 'random flat pairs near the key grammar (indexes, separators, prefixes, newlines, huge indexes) against a reference parser, all combinations of name, separator, pruning and cap'
    rng = H.rng
    # huge indexes stay cheap
    H.group('denial of service')
    for prune in (True, False):
        for n in (10 ** 6, 10 ** 9, 10 ** 30):
            for cap in (3, 1024):
                H.case(prune, n, cap)
                C = List.named(u'l').of(String).using(prune_empty=prune, maximum_set_flat_members=cap)
                el = C.from_flat([(u'l_%d' % n, u'v'), (u'l_0', u'w')])
                H.check(len(el) == (2 if prune else cap), 'members stay within the cap', len(el))
                H.eq([m.u for m in el][:2], [u'w', u'v'] if prune else [u'w', u''], 'values')
    H.group('cap')
    for prune in (True, False):
        for n in (1023, 1024, 1025, 2000):
            H.case(prune, n)
            el = List.named(u'l').of(String).using(prune_empty=prune).from_flat([(u'l_%d' % i, u'%d' % i) for i in reversed(range(n))])
            H.eq([m.u for m in el], [u'%d' % i for i in range(min(n, 1024))], 'lowest indexes win')
    H.group('random')
    for k in range(H.scale(9000, 150000)):
        if not H.more(): break
        name = rng.choice([u'l', u'l', u'lst', None, u'a.b', u'l_1', u'1', u'caf\xe9'])
        sep = rng.choice([u'_', u'_', u'.', u'__', u'*', u'|'])
        member = rng.choice([Rec, Rec.named(u's'), Dict.of(String.named(u's')), Dict.named(u'd').of(String.named(u's')), List.of(String), Array.of(String), Array.named(u's').of(String), Rec.named(u'0')])
        prune = rng.random() < .5
        cap = rng.choice([1024, 1024, 0, 1, 2, 5])
        def key():
            pre = rng.choice([name, name, name, name, u'l', u'x', u'', None])
            parts = []
            if pre: parts.append(pre + rng.choice([sep, sep, sep, sep, u'', u'_', u'.']))
            parts.append(rng.choice([u'0', u'1', u'2', u'3', u'10', u'11', u'007', u'00', u'-1', u'', u'x', u'1x', u'5', u'9', u'40']))
            parts.append(rng.choice([u'', u'', u'', sep, sep + u's', sep + u's', sep + u'd' + sep + u's', u'_s', u'.s', u'\n', sep + sep, u's', sep + u'0', sep + u'1' + sep + u's', u' ']))
            return u''.join(parts)
        pairs = [(key(), rng.choice([u'', u'a', u'b', u'c', u' ', u'0'])) for _ in range(rng.randrange(7))]
        old = [] if issubclass(member, (Dict, List, Array)) else [u'old'] * rng.randrange(3)
        H.case(name, member.__name__, member.name, sep, prune, cap, pairs)
        one(H, name, member, sep, prune, cap, pairs, old)
