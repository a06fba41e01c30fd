# executable contracts for C17
from flatland.util import luhn10
from flatland.validation import Luhn10
from flatland import Integer, Long

def spec(n):
    t = 0
    for i, ch in enumerate(reversed(str(abs(n)).rstrip('L'))):
        d = int(ch)
        if i % 2:
            d *= 2
            if d > 9: d -= 9
        t += d
    return t % 10 == 0

def one(H, n):
    H.case('luhn10', n)
    H.eq(H.call(luhn10, n), ('ok', spec(n)), 'luhn10(%r)' % n)

def replay_luhn10(H, model):
    try: n = int(model.get('number', ''))
    except ValueError: return
    one(H, n)

def run(H):
    H.rule = 'every integer of small magnitude, then random integers of 1..40 digits and their neighbours with a corrected check digit'
    H.group('luhn10')
    for n in range(-H.scale(3000, 30000), H.scale(12000, 200000)):
        one(H, n)
    for k in range(H.scale(4000, 60000)):
        n = H.rng.randrange(10 ** H.rng.randrange(1, 40))
        for d in (0, 1, 9):
            one(H, n // 10 * 10 + d)
        one(H, -n)
        good = [n * 10 + d for d in range(10) if spec(n * 10 + d)]
        one(H, good[0])
    H.group('Luhn10 validator')
    for k in range(H.scale(400, 4000)):
        n = H.rng.randrange(10 ** H.rng.randrange(1, 20)) * H.rng.choice([1, 1, 1, -1])
        for S in (Integer, Long):
            el = S(n)
            H.case(S.__name__, n)
            r = H.call(Luhn10().validate, el, None)
            H.eq(r, ('ok', spec(n)), 'Luhn10.validate')
            H.eq(el.value, n, 'validator altered the value')
            H.eq(len(el.errors), 0 if spec(n) else 1, 'number of errors')
    for S in (Integer, Long):
        for bad in (None, u'', u'x', object()):
            el = S(); el.set(bad)
            H.case(S.__name__, bad)
            H.eq(H.call(Luhn10().validate, el, None), ('ok', False), 'Luhn10.validate without a number')
