"""plant.py SPEC.py: try the planted bugs of SPEC (a list BUGS of dicts id, property, edits [(file, old, new)], demo, needs, breaks)
in /repo one by one: demo passes clean, tests stay green, demo fails, which checks catch it.  Kept in /verif/seeded/<id>."""
import sys, os, subprocess, json, runpy, re
R, S = '/repo', '/verif/seeded'
SH = '#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nJYTHONPATH=/opt/jylib:$PWD exec jython -B "$d/demo.py"\n'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    return sh('bash /tmp/runtests.sh').stdout.strip()
def reset():
    sh('git -C %s checkout -- .' % R)
    sh("find %s -name '*$py.class' -delete" % R)
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only: continue
        if sh('git -C %s status --porcelain' % R).stdout.strip(): sys.exit('repo dirty')
        d = os.path.join(S, b['id']); os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write('# -*- coding: utf-8 -*-\n' + b['demo'].lstrip('\n')); open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
        def fail(m):
            print(b['id'], 'REJECTED', m); sh('mv %s /tmp/rej_%s' % (d, b['id'])); sh('rm -rf %s' % d); reset()
        r = sh('bash %s/demo.sh' % d, cwd=R)
        if r.returncode: fail('demo fails clean: ' + (r.stdout + r.stderr)[-600:]); continue
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(R, f); t = open(p, encoding='utf-8').read()
            if t.count(old) != 1: ok = False; print(b['id'], f, 'occurrences', t.count(old)); break
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        if not ok: fail('edit'); continue
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        t = tests()
        if t.split(' ', 1)[-1] != 'set()': fail('tests ' + t); continue
        r = sh('bash %s/demo.sh' % d, cwd=R)
        if r.returncode == 0: fail('demo passes with patch'); continue
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        v = sh('python3-vt run.py %s' % b['property'], cwd='/verif')
        lines = [l for l in v.stdout.splitlines() if l.startswith('VIOLATION')]
        print(b['id'], b['property'], 'caught' if v.returncode == 1 and lines else 'MISSED rc=%d' % v.returncode, lines[:1], flush=True)
        if v.returncode not in (0, 1): print(v.stdout[-500:], v.stderr[-500:])
        reset()
main()
