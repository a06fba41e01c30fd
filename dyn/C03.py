# executable contracts for C03: validator chains
import itertools
from flatland import String, Integer, List, Dict, Array, SparseDict, MultiValue, Skip, SkipAll, SkipAllFalse, Unevaluated, DateYYYYMMDD, JoinedString
from flatland.schema.base import validate_element, NotEmpty
from flatland.signals import validator_validated

class Falsy(object):
    def __nonzero__(self): return False
class Truthy(object): pass
F, T = Falsy(), Truthy()
RESULTS = [True, False, None, 0, 1, 2, Skip, SkipAll, SkipAllFalse, Unevaluated, u'', u'x', [], F, T, 0.0]

def spec(results):
    """(number of validators called, result) of a chain returning these results"""
    for i, r in enumerate(results):
        if r is None: return i + 1, False
        if r is Skip: return i + 1, True
        if r is SkipAll or r is SkipAllFalse or not r: return i + 1, r
    return len(results), True

def same(a, b): return a is b or (type(a) is type(b) and a == b)

def chain(results, log):
    fns = []
    for i, r in enumerate(results):
        def fn(element, state, i=i, r=r):
            log.append((i, element, state)); return r
        fns.append(fn)
    return fns

def signals(recv):
    def on(sender, **kw): recv.append((sender, kw['element'], kw['state'], kw['result'], len(kw)))
    return on

def check_chain(H, el, results, state, listen, via):
    log, recv = [], []
    fns = chain(results, log)
    H.case(type(el).__name__, el.optional, el.is_empty, [repr(r) for r in results], listen, via)
    on = signals(recv)
    if listen: validator_validated.connect(on)
    try:
        if via == 'function': out = H.call(validate_element, el, state, fns)
        else:
            el.validators = fns
            if via == 'down': out = H.call(el._validate, state, True)
            elif via == 'up': out = H.call(el._validate, state, False)
            else:
                el.descent_validators = fns; out = H.call(el._validate, state, True)
    finally:
        if listen: validator_validated.disconnect(on)
    if not H.check(out[0] == 'ok', 'validating raised', out): return
    if el.optional and el.is_empty:
        H.check(out[1] is True and not log and not recv, 'an optional empty element is valid without validators', (out, log, recv)); return
    if not fns:
        ok = not el.is_empty
        H.check(out[1] is ok, 'without validators: valid exactly when not empty', (out, el.is_empty))
        if listen:
            H.check([(r[0], r[3]) for r in recv] == [(NotEmpty, ok)] and recv[0][1] is el and recv[0][2] is state, 'emptiness check announced once', recv)
        return
    n, want = spec(results)
    H.check(same(out[1], want), 'result of the chain', 'got %r, expected %r' % (out[1], want))
    H.check([l[0] for l in log] == list(range(n)), 'validators called in order, each once, stopping where the protocol says', '%r expected %r' % ([l[0] for l in log], range(n)))
    H.check(all(l[1] is el and l[2] is state for l in log), 'validators get the element and the state')
    if listen:
        H.check(len(recv) == n and all(recv[i][0] is fns[i] and recv[i][1] is el and recv[i][2] is state and same(recv[i][3], results[i]) for i in range(min(n, len(recv)))),
                'each executed validator announced once with its own result', recv)

def elements():
    yield String(u'x'); yield String(); yield String(optional=True); yield String(u'y', optional=True); yield String(u'', optional=True)
    yield Integer(0); yield Integer(u'bad', optional=True); yield Integer(optional=True)

def containers():
    L = List.of(String); D = Dict.of(String.named(u's')); S = SparseDict.of(String.named(u's')); A = Array.of(String)
    for o in (False, True):
        yield L([u'a'], optional=o); yield L(optional=o); yield D(optional=o); yield S(optional=o); yield S({u's': u'1'}, optional=o)
        yield A(optional=o); yield A([u'q'], optional=o)

def replay_validate_element(H, model):
    pass

def run(H):
    H.rule = 'all chains up to length 2 (3 thorough) over 16 results, random longer chains, over element kinds, states, with and without receivers'
    for el in elements():
        H.group('scalar chains')
        for n in range(H.scale(3, 4)):
            for combo in itertools.product(RESULTS, repeat=n):
                if n == 2 and H.quick and H.rng.random() < .6: continue
                if not H.more(): break
                check_chain(H, el, list(combo), {'k': 1}, H.rng.random() < .7, H.rng.choice(['function', 'down']))
    H.group('long chains')
    for k in range(H.scale(1500, 30000)):
        el = H.rng.choice(list(elements()))
        res = [H.rng.choice([True, 1, T, u'x', 2, Unevaluated]) for _ in range(H.rng.randrange(3, 9))]
        if H.rng.random() < .8: res[H.rng.randrange(len(res))] = H.rng.choice(RESULTS)
        check_chain(H, el, res, H.rng.choice([None, 7, u's']), H.rng.random() < .5, H.rng.choice(['function', 'down']))
    H.group('containers')
    for el in containers():
        for n in range(3):
            for combo in itertools.product([True, False, None, Skip, SkipAll, SkipAllFalse, 2, u''], repeat=n):
                if n:
                    check_chain(H, el, list(combo), None, True, 'descent')
                check_chain(H, el, list(combo), None, True, 'up')
        el.descent_validators = (); H.case('no descent validators', type(el).__name__)
        log = []; el.validators = chain([False], log); recv = []
        on = signals(recv); validator_validated.connect(on)
        H.check(el._validate(None, True) is Unevaluated and not log and not recv, 'a container without descent validators is not judged on the way down')
        validator_validated.disconnect(on)
    H.group('scalars going up')
    for el in elements():
        log = []; el.validators = chain([False], log); H.case(repr(el))
        H.check(el._validate(None, False) is Unevaluated and not log, 'a scalar is not judged on the way up')
    H.group('whole validate call')
    for el in elements():
        for combo in itertools.product([True, False, None, Skip, SkipAll, SkipAllFalse, 1, 0], repeat=2):
            for recurse in (True, False):
                log = []
                el.validators = chain(list(combo), log); H.case(repr(el), [repr(c) for c in combo], recurse)
                out = H.call(el.validate, u'st', recurse)
                if el.optional and el.is_empty: n, want = 0, True
                else: n, want = spec(list(combo))
                H.check(out == ('ok', bool(want)), 'validate() of a single element', (out, want))
                H.check([l[0] for l in log] == list(range(n)) and all(l[2] == u'st' for l in log), 'validators called once each, in order', log)
    H.group('validators that change the element')
    for k in range(H.scale(150, 2500)):
        if not H.more(): break
        log = []; n = H.rng.randrange(1, 5); acts = [H.rng.choice(['keep', 'empty', 'fill', 'optional', 'required']) for _ in range(n)]; res = [H.rng.choice([True, True, True, 1] + RESULTS) for _ in range(n)]
        opt = H.rng.random() < .6; start = H.rng.choice([u'x', u'x', None]); H.case(opt, start, acts, [repr(r) for r in res])
        def fn(i):
            def v(el, state):
                log.append(i); a = acts[i]
                if a in ('empty', 'fill'): el.set(None if a == 'empty' else u'y')
                elif a != 'keep': el.optional = a == 'optional'
                return res[i]
            return v
        el = String(start, optional=opt, validators=[fn(i) for i in range(n)])
        none = opt and start is None; out = H.call(el._validate, None, True)
        c, want = (0, True) if none else spec(res)
        H.eq(log, list(range(c)), 'every validator of the chain is called, whatever the earlier ones did to the element')
        H.check(out[0] == "ok" and same(out[1], want), "and the result is theirs", (out, want))
