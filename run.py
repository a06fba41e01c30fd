#!/usr/bin/env python3
"""Check one property:  run.py Cxx [--tier quick|thorough] [--contracts a,b] [--no-dyn]

1. dumps /repo's current source with the repository's own runtime (pyvc/jydump.py),
2. generates and discharges the proof obligations of every contract in contracts/Cxx.py,
3. runs the executable contracts of dyn/Cxx.py against the real code (bounded; finds failing inputs),
4. writes evidence/Cxx.json and gives the verdict."""
import argparse, importlib.util, json, multiprocessing, os, re, signal, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'pyvc'))
REPO = os.environ.get('VERIF_REPO', '/repo')

def load(name):
    p = os.path.join(HERE, 'contracts', name + '.py')
    if not os.path.exists(p): return None
    spec = importlib.util.spec_from_file_location('contracts_' + name, p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(HERE, 'contracts'))
    spec.loader.exec_module(m)
    return m

def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out

def start_dyn(pid, tier, seed, models=None):
    p = os.path.join(HERE, 'dyn', pid + '.py')
    if not os.path.exists(p): return None
    fd, out = tempfile.mkstemp(suffix='.json', prefix='dyn_'); os.close(fd)
    scratch = tempfile.mkdtemp(prefix='dynwork_')
    env = dict(os.environ, JYTHONPATH='/opt/jylib', VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPO=REPO, PYTHONIOENCODING='utf-8')
    cmd = ['jython', '-B', os.path.join(HERE, 'dyn', 'h.py'), pid, out]
    if models:
        mf = out + '.models'
        json.dump(models, open(mf, 'w')); cmd.append(mf)
    err = tempfile.TemporaryFile()
    pr = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=err, stderr=subprocess.STDOUT, start_new_session=True)
    return pr, out, scratch, err, time.time()

def finish_dyn(d, limit):
    pr, out, scratch, err, t0 = d
    try: rc = pr.wait(timeout=max(1, limit - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL); pr.wait(); rc = 'timeout'
    err.seek(0); log = err.read().decode('utf8', 'replace')
    try: res = json.load(open(out))
    except (OSError, ValueError): res = None
    for f in (out, out + '.models'):
        try: os.unlink(f)
        except OSError: pass
    subprocess.call(['rm', '-rf', scratch])
    return rc, res, log

def worker(P, con, tmo, q, i):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    from prove import verify
    import threading
    threading.stack_size(512 << 20); sys.setrecursionlimit(20000)
    def go():
        try: r = verify(P, con, tmo)
        except BaseException as e:
            r = {'name': con.name, 'target': con.target, 'status': 'error', 'obligations': [], 'assumed': [], 'notes': [repr(e), traceback.format_exc()[-2000:]]}
        q.put((i, json.dumps(r, default=str)))
    t = threading.Thread(target=go); t.start(); t.join()

def prove_all(P, cons, tmo, wall, jobs):
    ctx = multiprocessing.get_context('fork')
    res = [None] * len(cons)
    pending = list(range(len(cons)))
    running = {}
    q = ctx.Queue()
    t_end = time.time() + wall
    def drain(block):
        try:
            while True:
                i, r = q.get(timeout=0.2 if block else 0)
                res[i] = json.loads(r)
                if i in running:
                    running[i][0].join(5); del running[i]
                block = False
        except Exception: pass
    while pending or running:
        while pending and len(running) < jobs and time.time() < t_end:
            i = pending.pop(0)
            p = ctx.Process(target=worker, args=(P, cons[i], tmo, q, i)); p.start()
            running[i] = (p, time.time())
        drain(True)
        for i, (p, t0) in list(running.items()):
            if not p.is_alive():
                drain(False)
                if i in running:
                    res[i] = {'name': cons[i].name, 'target': cons[i].target, 'status': 'error', 'obligations': [], 'assumed': [], 'notes': ['prover process ended (exit %s)' % p.exitcode]}
                    del running[i]
            elif time.time() > t_end or time.time() - t0 > wall:
                p.kill(); p.join()
                del running[i]
                res[i] = {'name': cons[i].name, 'target': cons[i].target, 'status': 'timeout', 'obligations': [], 'assumed': [], 'notes': ['time budget']}
        if time.time() > t_end:
            for i in pending: res[i] = {'name': cons[i].name, 'target': cons[i].target, 'status': 'timeout', 'obligations': [], 'assumed': [], 'notes': ['time budget']}
            pending = []
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--contracts'); ap.add_argument('--no-dyn', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--record', action='store_true', help='record the library abstractions each proof uses (contracts/baseline.json)')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    for f in (os.path.join(HERE, 'replay', pid + '.txt'), os.path.join(HERE, 'evidence', pid + '.json')):
        if os.path.exists(f): os.unlink(f)
    quick = tier == 'quick'
    wall = 240 if quick else 600
    tmo = 8000 if quick else 60000
    kn = known()
    dyn = None if a.no_dyn else start_dyn(pid, tier, seed)
    m = load(pid)
    results, P = [], None
    if m is not None:
        from front import Program
        P = Program(REPO)
        cons = m.contracts(P)
        if a.contracts: cons = [c for c in cons if c.name in a.contracts.split(',')]
        results = prove_all(P, cons, tmo, wall, 7)
    drc = dres = None; dlog = ''
    if dyn: drc, dres, dlog = finish_dyn(dyn, 420 if quick else 840)
    # a refutation counts only when it rests on the same library abstractions as the recorded proof
    basef = os.path.join(HERE, 'contracts', 'baseline.json')
    base = json.load(open(basef)) if os.path.exists(basef) else {}
    if a.record:
        for r in results: base[pid + '/' + r['name']] = {'ufs': sorted(set(r.get('ufs', []))), 'status': r['status'], 'obligations': len(r['obligations'])}
        json.dump(base, open(basef, 'w'), indent=1, sort_keys=True)
    refuted = []
    for r in results:
        if r['status'] == 'refuted':
            b = base.get(pid + '/' + r['name'])
            extra = sorted(set(r.get('ufs', [])) - set(b['ufs'])) if b else []
            if extra:
                r['status'] = 'inconclusive'
                r['notes'].append('refuted only under library abstractions the recorded proof does not use: %s' % ', '.join(extra))
            else: refuted.append(r)
    lost = [r for r in results if r not in refuted and r['status'] != 'proved' and base.get(pid + '/' + r['name'], {}).get('status') == 'proved']
    if (refuted or lost) and not (dres and dres.get('failures')) and os.path.exists(os.path.join(HERE, 'dyn', pid + '.py')) and not a.no_dyn:
        # look harder for a failing input, starting from the counterexamples
        models = [{'contract': r['name'], 'obligation': o['name'], 'model': o.get('model', {})} for r in refuted + lost for o in r['obligations'] if o['status'] != 'proved']
        d2 = start_dyn(pid, 'hunt', seed, models)
        rc2, res2, log2 = finish_dyn(d2, 240)
        if res2 and (res2.get('failures') or rc2 == 7): drc, dres, dlog = rc2, res2, log2
    viol = []
    kfound = []
    code = 0
    if dyn:
        if dres is None:
            print('checker error: the executable contracts gave no result (%s)\n%s' % (drc, dlog[-3000:])); code = 2
        else:
            for f in dres['failures']:
                key = (pid, f.get('key') or '')
                if key in kn: kfound.append((key, f))
                else: viol.append(('dyn', f))
            if drc not in (0, 1) and not viol:
                if drc == 7: viol.append(('dyn', {'what': 'no answer within the time limit', 'case': dres.get('current'), 'detail': dlog[-3000:]}))
                else:
                    print('checker error: executable contracts ended with %s\n%s' % (drc, dlog[-3000:])); code = 2
    seen = set()
    for key, f in kfound:
        if key not in seen:
            seen.add(key); print('KNOWN-FINDING: property=%s key=%s %s' % (pid, key[1], kn[key]))
    rp = os.path.join(HERE, 'replay', pid + '.txt')
    if viol:
        with open(rp, 'w') as fo:
            fo.write('property %s: the real code broke the contract on these inputs (re-run: python3-vt run.py %s)\n' % (pid, pid))
            for _, f in viol: fo.write(json.dumps(f, indent=1, default=str) + '\n')
            for r in lost: fo.write('\nno longer discharged: contract %s on %s (%s): %s\n' % (r['name'], r['target'], r['status'], ', '.join(sorted(set(o['name'] for o in r['obligations'] if o['status'] != 'proved'))) or '; '.join(str(x)[:300] for x in r['notes'])))
            for r in refuted: fo.write('\nfailed obligations of contract %s on %s:\n%s\n' % (r['name'], r['target'], json.dumps([o for o in r['obligations'] if o['status'] == 'refuted'], indent=1)))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        code = 1
    elif refuted:
        with open(rp, 'w') as fo:
            fo.write('property %s: obligations refuted by the verifier (no failing input found)\n' % pid)
            for r in refuted:
                for o in r['obligations']:
                    if o['status'] == 'refuted': fo.write('contract %s, function %s, obligation %s\n%s\n' % (r['name'], r['target'], o['name'], json.dumps(o, indent=1)))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        code = 1
    ev = evidence(pid, tier, seed, m, results, dres, drc, refuted, viol, kfound, time.time() - t0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if viol or refuted:
        for _, f in viol[:3]: print('  failing: %s' % str(json.dumps(f, default=str))[:1500])
        for r in refuted[:4]:
            print('  refuted: %s (%s): %s' % (r['name'], r['target'], ', '.join(sorted(set(o['name'] for o in r['obligations'] if o['status'] == 'refuted')))))
    for r in results:
        n = len(r['obligations']); k = sum(1 for o in r['obligations'] if o['status'] == 'proved')
        extra = '' if r['status'] == 'proved' else ' | ' + '; '.join(str(x)[:300] for x in r['notes'])[:600]
        print('%-12s %-44s %3d/%3d obligations  %6.1fs%s' % (r['status'], r['name'], k, n, r.get('wall', 0), extra))
        if a.v and r['status'] != 'proved':
            for o in r['obligations']:
                if o['status'] != 'proved': print('     ', o['status'], o['name'], o.get('model'), '\n        ', o.get('goal', '')[:1200])
            if r.get('trace'): print(r['trace'])
            if r.get('fallback'): print('   fallback', r['fallback'])
    if dres: print('executable contracts: %d evaluations, %d distinct, %d failures, %.1fs' % (dres['evaluations'], dres['distinct'], len(dres['failures']), dres['wall']))
    sys.exit(code)

def evidence(pid, tier, seed, m, results, dres, drc, refuted, viol, kfound, wall):
    ob = [o for r in results for o in r['obligations']]
    proved = [r for r in results if r['status'] == 'proved']
    dis = [o for r in results for o in r['obligations'] if o['status'] == 'proved' and not o['bounded']]
    byb = {}
    for o in dis: byb[o['backend']] = byb.get(o['backend'], 0) + 1
    level = 'proof' if proved else 'exploration'
    cov = {}
    if results:
        cov.update({'obligations': len(ob), 'discharged': len(dis), 'checker_cmd': 'python3-vt run.py %s --tier %s' % (pid, tier),
          'trusted_base': ['pyvc (the symbolic executor of /verif/pyvc) and its model of Python 2.7 lists, dicts, sets, text and exceptions',
                           'z3 %s, cvc5 (back ends)' % __import__('z3').get_version_string(), "Jython's parser and module import (AST and class layout dump)"],
          'functions_under_contract': sorted(set(r['target'] for r in results)),
          'functions_proved': sorted(set(r['target'] for r in proved)),
          'contracts': [{'name': r['name'], 'target': r['target'], 'status': r['status'], 'obligations': len(r['obligations']),
                         'discharged': sum(1 for o in r['obligations'] if o['status'] == 'proved' and not o['bounded']),
                         'discharged_bounded': sum(1 for o in r['obligations'] if o['status'] == 'proved' and o['bounded']),
                         'solver_s': round(sum(o['time'] for o in r['obligations']), 3), 'inlined': r.get('inlined', []), 'what': r.get('doc', ''),
                         'notes': [str(x)[:400] for x in r['notes']], 'fallback': r.get('fallback')} for r in results],
          'by_backend': byb, 'solver_s': round(sum(o['time'] for o in ob), 3),
          'not_proved': [{'name': r['name'], 'status': r['status'], 'notes': [str(x)[:400] for x in r['notes']]} for r in results if r['status'] != 'proved']})
    else: cov['explanation'] = 'no function of this property is under a deductive contract in this run; bounded executable contracts only'
    if dres:
        cov.update({'evaluations': dres['evaluations'], 'distinct_nontrivial': dres['distinct'],
          'rule': dres.get('rule') or 'cases generated by dyn/%s.py; distinct by the textual form of the input' % pid,
          'samples': dres['samples'], 'bounded_part': 'executable contracts on the real code under Jython: bounded, never counted as proved',
          'dyn_groups': dres.get('groups')})
    ass = sorted(set(x for r in results for x in r.get('assumed', [])))
    if m is not None: ass += list(getattr(m, 'ASSUMPTIONS', []))
    if results: ass += ['integers are mathematical (as in Python)', 'program text is the AST dumped by the running interpreter from /repo on this run; nothing of a verified function is dropped except docstrings']
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ass, 'wall_s': round(wall, 2),
            'violations': len(viol) + (len(refuted) if not viol else 0), 'known_findings': len(kfound)}
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(3)
