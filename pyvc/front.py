"""Front end: runs jydump under the repository's own runtime and turns its output into
node objects.  Nothing here knows about particular functions."""
import warnings; warnings.simplefilter("ignore")
import json, os, subprocess, tempfile

class N(object):
    __slots__ = ('_', '__dict__')
    def __repr__(self):
        return '<%s@%s>' % (self._, getattr(self, 'lineno', '?'))

class Lit(object):
    """A literal: kind 'u' (unicode), 'b' (byte string), 'i', 'f'."""
    __slots__ = ('k', 'v')
    def __init__(self, k, v):
        self.k, self.v = k, v

IDENT = {'id', 'attr', 'arg', 'vararg', 'kwarg', 'name', 'asname', 'module'}

def conv(d, field=None):
    if isinstance(d, list):
        return [conv(x, field) for x in d]
    if isinstance(d, dict):
        if '_' in d:
            n = N()
            n._ = d['_']
            for k, v in d.items():
                if k == '_':
                    continue
                if k == 'names' and d['_'] == 'Global':
                    n.names = [x['v'] for x in v]
                else:
                    setattr(n, k, conv(v, k))
            return n
        if '$' in d:
            if field in IDENT:
                return d['v']
            k, v = d['$'], d['v']
            if k == 'i':
                v = int(v)
            elif k == 'f':
                v = float(v)
            return Lit(k, v)
    return d

def walk(n):
    """All nodes below n (n included)."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(reversed(x))
        elif isinstance(x, N):
            yield x
            stack.extend(v for k, v in reversed(list(x.__dict__.items())))

def walk_own(body):
    """Nodes of a function body, not descending into nested functions/classes/lambdas/genexps."""
    stack = list(reversed(body)) if isinstance(body, list) else [body]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(reversed(x))
        elif isinstance(x, N):
            yield x
            if x._ in ('FunctionDef', 'ClassDef', 'Lambda', 'GeneratorExp'):
                continue
            stack.extend(v for k, v in reversed(list(x.__dict__.items())))

class Program(object):
    def __init__(self, repo='/repo', raw=None):
        self.repo = repo
        self.raw = raw or self.dump(repo)
        self._build()
    @staticmethod
    def dump(repo):
        fd, out = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(os.environ)
        env['JYTHONPATH'] = '/opt/jylib'
        try:
            p = subprocess.run(['jython', '-B', os.path.join(here, 'jydump.py'), repo, out],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode != 0:
                raise RuntimeError('jydump failed: %s' % p.stdout.decode('utf8', 'replace')[-2000:])
            with open(out) as f: return json.load(f)
        finally:
            os.unlink(out)
    def _build(self):
        self.globals = self.raw['globals']
        self.classes = self.raw['classes']
        self.errors = dict(self.raw['errors'])
        self.funcs = {}       # (mod, line) -> FunctionDef   (decorator line too)
        self.mods = {}
        self.qual = {}        # id(node) -> qualified name
        for mod, f in self.raw['files'].items():
            if 'error' in f:
                self.errors[mod] = f['error']
                continue
            tree = conv(f['ast'])
            self.mods[mod] = tree
            self._index(mod, tree.body, '')
        self.byname = {}
        for (mod, line), node in self.funcs.items():
            self.byname.setdefault(self.qual[id(node)], node)

    def _index(self, mod, body, prefix):
        for x in walk_own(body):
            if x._ == 'FunctionDef':
                self.qual.setdefault(id(x), mod + ':' + prefix + x.name)
                lines = [x.lineno] + [d.lineno for d in (x.decorator_list or [])]
                for ln in range(min(lines), x.body[0].lineno + 1):
                    self.funcs.setdefault((mod, ln), x)
                x.mod = mod
                self._index(mod, x.body, prefix + x.name + '.')
            elif x._ == 'ClassDef':
                self._index(mod, x.body, prefix + x.name + '.')
            elif x._ == 'Lambda':
                x.mod = mod
                self._index(mod, [x.body], prefix + '<lambda>.')
            elif x._ == 'GeneratorExp':
                self._index(mod, [x.elt], prefix)
                for g in x.generators:
                    self._index(mod, [g.iter] + (g.ifs or []), prefix)

    def func_at(self, mod, line, name=None):
        n = self.funcs.get((mod, line))
        if n is not None and (name is None or name == '<lambda>' or n.name == name):
            return n
        for d in range(-3, 4):
            n = self.funcs.get((mod, line + d))
            if n is not None and n.name == name:
                return n
        return None

    def mro(self, q):
        c = self.classes.get(q)
        return c['mro'] if c else [q]

    def class_attr(self, q, name, after=None):
        """(defining class, descriptor) for attribute name on class q by MRO."""
        m = self.mro(q)
        if after is not None:
            m = m[m.index(after) + 1:]
        for b in m:
            c = self.classes.get(b)
            if c and name in c['attrs']:
                return b, c['attrs'][name]
        return None, None

    def method_node(self, q, name):
        b, d = self.class_attr(q, name)
        if d is None:
            return None
        if d.get('k') in ('classmethod', 'staticmethod', 'class_cloner'):
            d = d['f']
        if d.get('k') == 'property':
            d = d.get('fget')
        if not d or d.get('k') not in ('func', 'method'):
            return None
        return self.func_at(d['mod'], d['line'], d['name'])

    def resolve(self, target):
        """'mod:Class.meth' or 'mod:func' -> (node, class q or None), through the live class attributes,
        so a method moved to a base class or replaced by an alias is still found."""
        mod, path = target.split(':')
        parts = path.split('.')
        if len(parts) == 1:
            d = self.globals.get(mod, {}).get(parts[0])
            if d and d.get('k') == 'func':
                return self.func_at(d['mod'], d['line'], d['name']), None
            if d and d.get('k') == 'class':
                return None, d['q']
            return self.byname.get(target), None
        q = mod + ':' + parts[0]
        if len(parts) == 2:
            acc = parts[1].split('/')      # 'value/fset'
            if acc[1:] == ['raw']: return self.byname.get(mod + ':' + parts[0] + '.' + acc[0]), q      # as written, before anything wraps it
            b, d = self.class_attr(q, acc[0])
            if d is None:
                return self.byname.get(target), q
            k = d.get('k')
            if k in ('classmethod', 'staticmethod', 'class_cloner', 'assignable_class_property', 'assignable_property', 'lazy_property'):
                d = d['f']
            elif k == 'property':
                d = d.get(acc[1] if len(acc) > 1 else 'fget')
            if d and d.get('k') in ('func', 'method'):
                return self.func_at(d['mod'], d['line'], d['name']), q
            return None, q
        return self.byname.get(target), None
