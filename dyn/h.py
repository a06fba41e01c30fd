# -*- coding: utf-8 -*-
# Harness for executable contracts (runs under Jython).  usage: h.py Cxx out.json [models.json]
import sys, os, json, time, random, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(1, HERE)
try:
    from java.lang import Throwable
except ImportError:
    class Throwable(Exception): pass

class Stop(Exception):
    """enough failures"""

def show(x, depth=0):
    try:
        return repr(x)
    except Exception as e:
        return '<unprintable %s: %s>' % (type(x).__name__, type(e).__name__)

class Harness(object):
    CASE_LIMIT = 60
    def __init__(self, pid, out):
        self.pid, self.out = pid, out
        self.seed = int(os.environ.get('VERIF_SEED') or 1)
        self.tier = os.environ.get('VERIF_TIER') or 'quick'
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.budget = {'quick': 45, 'hunt': 90, 'thorough': 400}.get(self.tier, 45)
        self.evaluations = 0
        self.seen = set()
        self.failures = []
        self.samples = []
        self.groups = {}
        self.keys = {}
        self.current = None
        self.cur_t = time.time()
        self.rule = None
        self.group_name = ''
        self.deadline = self.t0 + self.budget
        self.models = []
        self.done = False
    @property
    def quick(self): return self.tier == 'quick'
    def scale(self, q, t):
        """number of cases: quick, thorough"""
        return q if self.tier == 'quick' else (t if self.tier == 'thorough' else (q + t) // 2)
    def more(self):
        return time.time() < self.deadline
    def group(self, name):
        self.group_name = name
        self.groups.setdefault(name, 0)
    def case(self, *desc):
        """announce the case about to be run"""
        self.current = (self.group_name,) + desc
        self.cur_t = time.time()
        self.evaluations += 1
        self.groups[self.group_name] = self.groups.get(self.group_name, 0) + 1
        if len(self.seen) < 400000:
            k = hash(show(self.current))
            if k not in self.seen:
                self.seen.add(k)
                if len(self.samples) < 12 and (self.groups[self.group_name] in (3, 40)):
                    self.samples.append(show(self.current)[:400])
    def fail(self, what, detail=None, key=None):
        if key is not None:
            n = self.keys.get(key, 0); self.keys[key] = n + 1
            if n: return
        self.failures.append({'what': what, 'case': show(self.current)[:3000], 'detail': show(detail)[:3000] if not isinstance(detail, basestring) else detail[:3000], 'key': key})
        if len([f for f in self.failures if not f['key']]) >= 5: raise Stop()
    def check(self, cond, what, detail=None, key=None):
        if not cond: self.fail(what, detail, key)
        return cond
    def eq(self, got, want, what, key=None):
        ok = type(got) is type(want) and got == want if not isinstance(want, basestring) else got == want
        try:
            ok = (got == want)
        except Exception as e:
            ok = False
        if not ok: self.fail(what, 'got %s, expected %s' % (show(got)[:1400], show(want)[:1400]), key)
        return ok
    def call(self, f, *a, **kw):
        """('ok', value) or ('exc', type name)"""
        try:
            return ('ok', f(*a, **kw))
        except (Stop, KeyboardInterrupt, MemoryError): raise
        except Exception as e:
            return ('exc', type(e).__name__)
        except Throwable as e:
            return ('exc', 'java:' + e.getClass().getName())
    def noexc(self, what, f, *a, **kw):
        """f(*a) must not raise; returns (True, value) or (False, None)"""
        try:
            return True, f(*a, **kw)
        except (Stop, KeyboardInterrupt): raise
        except (Exception, Throwable):
            self.fail(what + ': raised', traceback.format_exc())
            return False, None
    def raises(self, excs, what, f, *a, **kw):
        r = self.call(f, *a, **kw)
        names = [e.__name__ if isinstance(e, type) else e for e in (excs if isinstance(excs, (tuple, list)) else (excs,))]
        return self.check(r[0] == 'exc' and r[1] in names, what, 'outcome %s, expected %s' % (show(r), names))
    def write(self):
        res = {'evaluations': self.evaluations, 'distinct': len(self.seen), 'failures': self.failures, 'samples': self.samples[:12] or [show(self.current)],
               'groups': self.groups, 'rule': self.rule, 'wall': time.time() - self.t0, 'current': show(self.current)[:3000]}
        tmp = self.out + '.w'
        f = open(tmp, 'w'); json.dump(res, f); f.close()
        os.rename(tmp, self.out)
    def watch(self):
        while not self.done:
            time.sleep(1)
            if self.done: return
            if time.time() - self.cur_t > self.CASE_LIMIT and self.current is not None:
                frames = []
                try:
                    for th, fr in sys._current_frames().items(): frames.append(''.join(traceback.format_stack(fr)))
                except Exception: pass
                self.failures.append({'what': 'the call did not return within %d s' % self.CASE_LIMIT, 'case': show(self.current)[:3000], 'detail': '\n'.join(frames)[-3000:], 'key': None})
                self.write()
                os._exit(7)

def main():
    pid, out = sys.argv[1], sys.argv[2]
    H = Harness(pid, out)
    if len(sys.argv) > 3: H.models = json.load(open(sys.argv[3]))
    sys.path.insert(0, HERE)
    mod = __import__(pid)
    H.t0 = time.time(); H.deadline = H.t0 + H.budget
    th = threading.Thread(target=H.watch); th.setDaemon(True); th.start()
    rc = 0
    try:
        for m in H.models:
            f = getattr(mod, 'replay_' + m['contract'], None)
            if f:
                H.group('replay of a counterexample'); H.case(m['contract'], m['model'])
                f(H, m['model'])
        mod.run(H)
    except Stop:
        pass
    except (Exception, Throwable):
        # an exception out of the harness itself: the code under test misbehaved in a way no case expected
        H.failures.append({'what': 'unexpected exception', 'case': show(H.current)[:3000], 'detail': traceback.format_exc()[-3000:], 'key': None})
    H.done = True
    rc = 1 if [f for f in H.failures if not f['key']] else 0
    H.write()
    sys.stdout.flush()
    os._exit(rc)

if __name__ == '__main__':
    import h
    h.main()
