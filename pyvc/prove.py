"""pyvc: contracts, verification of a function against its contract, discharge of obligations."""
import os, subprocess, tempfile, time, traceback
import z3
from core import *
from interp import Interp, Frame, LoopCtx, LoopSpec
from lib import Lib

class Ctx(object):
    """passed to setup and post; attributes set by setup are visible to post and to loop invariants"""
    def __init__(self, E, con): self.E, self.con = E, con; self.hints = []; self.st0 = None
    def sym(self, name, sort=V):
        c = z3.Const('in_' + name, sort); self.hints.append((name, c)); return c
    def obj(self, st, name, cls=None):
        """an arbitrary pre-existing object"""
        r = z3.Const('in_' + name, I); self.hints.append((name, r))
        st.pc = st.pc + (r > 0,)
        v = V.obj(r)
        if cls: self.E.setclass(st, v, cls)
        return v
    def distinct(self, st, *vs):
        st.pc = st.pc + (z3.Distinct(*[self.E.ref(v) for v in vs]),)
    def assume(self, st, f): self.E.assume(st, f)
    def list(self, st, name, cls='__builtin__:list'):
        v = self.obj(st, name, cls); self.E.llen(st, self.E.ref(v)); return v
    def dict(self, st, name, cls='__builtin__:dict'):
        return self.obj(st, name, cls)

class Contract(object):
    """name, target 'module:Class.method[/fset]', setup(c, st) -> args (list) or (args, kw),
    post(c, st, res) -> [(name, formula)]; env(E) installs callee contracts and abstractions."""
    def __init__(self, name, target, setup, post, env=None, loops=(), collect=False, doc='', unroll=3, cls=None, allow=()):
        self.name, self.target, self.setup, self.post, self.env = name, target, setup, post, env
        self.loops, self.collect, self.doc, self.unroll, self.cls = list(loops), collect, doc, unroll, cls
        self.allow = allow

def run_contract(P, con, loops=True, tmo=8000, budget=None):
    """symbolic execution + discharge; returns a plain dict"""
    E = Lib(P)
    out = {'name': con.name, 'target': con.target, 'obligations': [], 'status': None, 'assumed': [], 'notes': [], 'paths': 0, 'doc': con.doc}
    t0 = time.time()
    if budget: E.deadline = t0 + budget
    node, q = P.resolve(con.target)
    if node is None:
        out['status'] = 'unreachable'; out['notes'].append('target not found as a Python function'); return out
    c = Ctx(E, con)
    E.ghost = c
    E.unroll = con.unroll
    E.current = con.name
    try:
        if con.env: con.env(E, c)
        E.loopspecs = list(con.loops) if loops else []
        for sp in E.loopspecs: sp.used = 0; sp.rolemap = {}
        st = E.new_state()
        qn = P.qual.get(id(node))
        E.verifying = qn
        args = con.setup(c, st)
        kw, star, starpos = {}, None, None
        if isinstance(args, tuple): args, kw, star, starpos = (args + (None, None))[:4]      # (positional, keywords[, the ** dictionary[, the rest of the positional arguments]])
        c.st0 = st.clone()
        E.entry = c.st0
        f = Func(node, node.mod, qn, cls=None)
        paths = []
        for s, r in E.call_func(st, f, list(args), kw, None, star, starpos):
            if con.collect and not isinstance(r, Exc):
                s0 = s
                for s2, r2 in E.collect(s, r, None): finish(E, c, con, s2, r2, paths)
                continue
            finish(E, c, con, s, r, paths)
        out['paths'] = len(paths)
        if not paths: raise Unsupported('no path reaches the end of the function')
        # vacuity: some path must be satisfiable
        live = 0
        for s in paths:
            if E.check(s.pc) != z3.unsat: live += 1
            if live: break
        out['live_paths'] = live
        if not live: raise Unsupported('contradictory precondition: no feasible path')
    except Unsupported as e:
        out['status'] = 'unsupported'; out['notes'].append('outside the supported subset: %s' % e)
        out['trace'] = traceback.format_exc()[-1500:]
        out['assumed'] = sorted(E.assumed); out['wall'] = time.time() - t0
        return out
    except SpecMismatch as e:
        out['status'] = 'unsupported'; out['notes'].append('specification does not match the code: %s' % e)
        out['wall'] = time.time() - t0; return out
    except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
        out['status'] = 'error'; out['notes'].append('engine: %r' % e); out['trace'] = traceback.format_exc()[-3000:]
        out['wall'] = time.time() - t0; return out
    out['explore'] = time.time() - t0
    if os.environ.get('PYVC_TRACE'): print('  explored', out['name'], out['explore'], len(E.obligs), flush=True)
    out['assumed'] = sorted(E.assumed); out['inlined'] = sorted(E.inlined); out['ufs'] = sorted(E.ufs)
    out['notes'] += sorted(set(E.notes))
    out['loops'] = [(sp.name, sp.used) for sp in E.loopspecs]
    discharge(E, out, tmo, t0 + 2 * budget if budget else None)
    out['wall'] = time.time() - t0
    out['checks'] = E.checks
    st = [o['status'] for o in out['obligations']]
    if not st: out['status'] = 'unsupported'; out['notes'].append('no obligations were generated')
    elif 'refuted' in st: out['status'] = 'refuted'
    elif 'unknown' in st: out['status'] = 'unknown'
    elif any(o['bounded'] for o in out['obligations']): out['status'] = 'bounded'
    else: out['status'] = 'proved'
    return out

def finish(E, c, con, s, r, paths):
    paths.append(s)
    if isinstance(r, Exc) and os.environ.get('PYVC_TRACE'): print('  path ends with', r, r.args, flush=True)
    posts = con.post(c, s, r)
    for nm, f in posts: E.oblige(s, nm, f, 'post')

def discharge(E, out, tmo, deadline=None):
    for n, o in enumerate(E.obligs):
        if sum(d['status'] == 'unknown' for d in out['obligations']) >= (6 if deadline else 3):
            out['notes'].append('stopped after %d of %d obligations (several are undecided)' % (n, len(E.obligs))); break
        if deadline and (time.time() > deadline or any(d['status'] == 'refuted' for d in out['obligations'])):
            out['notes'].append('stopped after %d of %d obligations' % (n, len(E.obligs)))
            if not any(d['status'] == 'refuted' for d in out['obligations']): out['obligations'].append({'name': o.name, 'kind': o.kind, 'bounded': o.bounded, 'status': 'unknown', 'time': 0.0, 'backend': 'none'})
            break
        goal = z3.simplify(o.goal)
        d = {'name': o.name, 'kind': o.kind, 'bounded': o.bounded, 'status': None, 'time': 0.0, 'backend': 'z3'}
        t0 = time.time()
        if z3.is_true(goal): d['status'] = 'proved'; d['backend'] = 'simplifier'
        else:
            def mk(mbqi, t):
                s = z3.Solver(); s.set('timeout', t)
                if not mbqi: s.set('smt.mbqi', False)
                for x in o.pc: s.add(x)
                s.add(z3.Not(goal)); return s
            # triggers only first (quick), then model-based instantiation (finds models), then cvc5
            d['backend'] = 'z3 (no mbqi)'
            for t in (min(tmo, 1000), min(tmo, 4000)):
                s = mk(False, t); r = s.check()
                if r != z3.unknown: break
                txt = s.to_smt2()    # the same text in a solver of its own: the order of terms differs
                for seed in (0, 7):
                    s2 = z3.Solver(ctx=z3.Context()); s2.from_string(txt); s2.set('timeout', t); s2.set('smt.mbqi', False); s2.set('smt.random_seed', seed)
                    if s2.check() == z3.unsat: r = z3.unsat; break
                if r == z3.unsat: break
            if r == z3.unknown:
                s = mk(True, tmo); r = s.check(); d['backend'] = 'z3'
            if r == z3.unknown and tmo > 4000 and mk(False, tmo).check() == z3.unsat: r = z3.unsat; d['backend'] = 'z3 (no mbqi)'
            if r == z3.unknown and cvc5_check(s, tmo) == 'unsat': r = z3.unsat; d['backend'] = 'cvc5'
            d['status'] = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
            if r != z3.unsat and os.environ.get('PYVC_SMT'): open('/tmp/ob.smt2','w').write(s.to_smt2()); d['pc'] = [str(x) for x in o.pc]; d['goal'] = str(goal)
            if r == z3.sat:
                m = s.model()
                d['model'] = {}
                for nm, k in E.ghost.hints:
                    try: d['model'][nm] = str(m.eval(k, model_completion=False))[:200]
                    except z3.Z3Exception: pass
                d['goal'] = str(goal)[:1500]
                d['pc'] = [str(x)[:300] for x in o.pc][-25:]
        d['time'] = round(time.time() - t0, 4)
        if os.environ.get('PYVC_TRACE'): print('   ', d['status'], d['time'], d['backend'], d['name'], flush=True)
        out['obligations'].append(d)

def cvc5_check(s, tmo):
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % tmo, '--arrays-exp', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo / 1000.0 + 5)
            return p.stdout.decode('utf8', 'replace').strip().split('\n')[0]
        finally: os.unlink(f.name)
    except (OSError, subprocess.SubprocessError): return 'unknown'

def verify(P, con, tmo=8000):
    """unbounded first; when the loop specifications do not fit the code as it now is, the same contract is
    checked with the loops unrolled (and labelled bounded)"""
    r = run_contract(P, con, True, tmo)
    bad_inv = [o for o in r['obligations'] if o['kind'] == 'inv' and o['status'] != 'proved']
    if con.loops and (bad_inv or r['status'] in ('unsupported', 'unknown') or
                      (r['status'] == 'refuted' and any(u for _, u in r.get('loops', ())))):
        r2 = run_contract(P, con, False, min(tmo, 3000), 40)
        r2['fallback'] = {'reason': ['%s:%s' % (o['name'], o['status']) for o in bad_inv] or r['notes'], 'status': r['status'],
                          'obligations': len(r['obligations'])}
        posts = [o for o in r['obligations'] if o['kind'] == 'post' and o['status'] == 'refuted' and not bad_inv]
        if posts and r2['status'] not in ('refuted', 'bounded'):
            # invariants hold, and still a postcondition is refuted after the loop
            r['fallback'] = {'status': r2['status']}
            return r
        r2['inv_failed'] = r2['fallback']['reason']
        return r2
    return r
