# -*- coding: utf-8 -*-
# executable contracts for C23: form classes
import sys
from flatland import Dict, Form, Integer, List, SparseDict, String
from flatland.schema.base import Element
KINDS = [String, Integer, List.of(String), Dict.of(String.named(u'z'))]
def snap(c): return (list(c.field_schema), [f.name for f in c.field_schema], sorted(k for k in c.__dict__ if not k.startswith('__')))
def run(H):
    H.rule = 'random form hierarchies (single and multiple bases, Dict mixins, field lists, attribute declarations, overrides) against a reference that computes the fields name by name'
    rng = H.rng
    H.group('hierarchies')
    for k in range(H.scale(2200, 50000)):
        if not H.more(): break
        pool = [Form]; expect = {Form: {}}; log = []
        for j in range(rng.randrange(1, 6)):
            cand = list(pool); rng.shuffle(cand)
            bases = [Form] if rng.random() < .3 else cand[:rng.choice([1, 1, 2, 2, 3])]
            # linearizable order: most derived first
            bases = sorted(set(bases), key=lambda c: -len(c.__mro__))
            bases = [b for b in bases if not any(o is not b and issubclass(o, b) for o in bases)]
            rng.shuffle(bases)
            members = {}; want = {}
            for b in bases:
                for n, f in expect[b].items(): want.setdefault(n, f)
            fl = None; orig = []
            if rng.random() < .35:
                fl = [rng.choice(KINDS).named(n) for n in rng.sample([u'a', u'b', u'c', u'd', u'label2'], rng.randrange(0, 4))]
                if rng.random() < .3 and fl: fl = fl + [rng.choice(KINDS).named(rng.choice(fl).name)]      # a name twice: the later one replaces
                members['field_schema'] = rng.choice([list, tuple])(fl)
                if rng.random() < .2:        # the very list of an existing schema
                    src = rng.choice(pool); fl = list(src.field_schema); members['field_schema'] = src.field_schema
                for f in fl: want[f.name] = f
            decl = {}
            for n in rng.sample([u'a', u'b', u'c', u'd', u'e'], rng.randrange(0, 4)):
                s = rng.choice(KINDS)
                if rng.random() < .5: s = s.named(rng.choice([n, u'other', u'a']))
                decl[n] = s; members[str(n)] = s; want[n] = ('decl', s, n); orig.append((s, s.name, sorted(s.__dict__)))
            members['marker'] = j
            mk = rng.choice(['type', 'exec'])
            log.append((len(pool), [pool.index(b) for b in bases], None if fl is None else [f.name for f in fl], sorted((n, s.name) for n, s in decl.items()))); H.case(log)
            before = [snap(c) for c in pool]
            r = H.call(type(Form), 'F%d' % j, tuple(bases), dict(members))
            if r == ('exc', 'TypeError') and len(bases) > 1: log.pop(); continue     # no consistent linearization
            if not H.check(r[0] == 'ok', 'the class statement succeeds', r): break
            F = r[1]
            names = [f.name for f in F.field_schema]
            H.check(len(names) == len(set(names)), 'each field name appears exactly once', names)
            H.eq(set(names), set(want), 'the fields are those inherited, listed and declared')
            exp = {}
            for f in F.field_schema:
                w = want.get(f.name)
                if isinstance(w, tuple):
                    s = w[1]
                    if s.name == w[2]: H.check(f is s, 'a declaration of the same name is used as is', f)
                    else: H.check(f is not s and issubclass(f, s) and f.name == w[2], 'a declaration is renamed to its attribute name', (f, f.name))
                elif w is not None: H.check(f is w, 'precedence among bases, own list and declarations', (f.name, f, w))
                exp[f.name] = f
            for n in decl: H.check(n not in F.__dict__ and not isinstance(getattr(F, n, None), type), 'declarations do not remain class attributes', n)
            H.check(F.marker == j, 'other attributes stay')
            for s, nm, d in orig: H.check(s.name == nm and sorted(s.__dict__) == d, 'the schema used is not altered', (s.name, nm))
            H.check([snap(c) for c in pool] == before, 'the bases are never changed')
            for b in bases: H.check(F.field_schema is not b.field_schema, 'the field list is the form\'s own')
            if names:
                e = F()
                H.eq(set(e.keys()), set(names), 'an element has exactly these fields')
                for f in F.field_schema: H.check(isinstance(e[f.name], f), 'created from the schema of that name')
            pool.append(F); expect[F] = exp
    H.group('field lists naming a field twice')
    for k in range(H.scale(200, 3000)):
        if not H.more(): break
        def lst(): return [rng.choice(KINDS).named(rng.choice([u'a', u'b', u'c'])) for _ in range(rng.randrange(0, 5))]
        class D1(Dict): field_schema = lst()
        class D2(Dict): field_schema = lst()
        H.case([f.name for f in D1.field_schema], [f.name for f in D2.field_schema]); b1, b2 = list(D1.field_schema), list(D2.field_schema)
        r = H.call(type(Form), 'T', rng.choice([(Form, D1, D2), (Form, D1), (D1, Form, D2)]), {})
        if r[0] != 'ok': continue
        names = [f.name for f in r[1].field_schema]; bs = [b for b in r[1].__mro__ if b in (D1, D2)]
        H.check(len(names) == len(set(names)), 'each field name appears exactly once, though a base repeats it', names)
        H.eq(set(names), set(f.name for b in bs for f in b.field_schema), 'all of them'); H.check([D1.field_schema, D2.field_schema] == [b1, b2], 'the bases are unchanged')
        for f in r[1].field_schema: H.check(any(g is f for g in [b for b in bs if f.name in [x.name for x in b.field_schema]][0].field_schema), 'from the earliest base that has it')
    H.group('mixins')
    D = Dict.of(String.named(u'a'), String.named(u'b')); 
    class A(Form):
        a = Integer
        c = Integer
    H.case('dict base')
    class B(A, D): pass
    H.eq(sorted((f.name, issubclass(f, Integer)) for f in B.field_schema), [(u'a', True), (u'b', False), (u'c', True)], 'a base listed earlier wins')
    class B2(Form, D):
        b = Integer
    H.eq(sorted((f.name, issubclass(f, Integer)) for f in B2.field_schema), [(u'a', False), (u'b', True)], 'declared over inherited'); H.eq([f.name for f in D.field_schema], [u'a', u'b'], 'the base is unchanged')
    H.case('sparse')
    class S(Form, SparseDict):
        a = Integer
    H.eq(sorted(f.name for f in S.field_schema), [u'a'], 'sparse form'); H.eq(S().keys(), [], 'sparse')
    H.case('nested')
    class N(Form):
        x = A
        y = List.of(A)
    H.eq(sorted(f.name for f in N.field_schema), [u'x', u'y'], 'nested forms'); H.check(A.name is None and [f for f in N.field_schema if f.name == u'x'][0] is not A, 'the nested form keeps its name')
    H.case('derived by calls')
    E = A.of(String.named(u'k')); H.eq([f.name for f in E.field_schema], [u'k'], 'of replaces'); H.eq(sorted(f.name for f in A.field_schema), [u'a', u'c'], 'A unchanged')
    class E2(E):
        a = String
    H.eq(sorted(f.name for f in E2.field_schema), [u'a', u'k'], 'derived schemas can be bases'); 
    G = A.named(u'g').using(optional=True); H.eq(sorted(f.name for f in G.field_schema), [u'a', u'c'], 'renaming keeps fields')
