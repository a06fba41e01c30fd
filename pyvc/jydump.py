# -*- coding: utf-8 -*-
# Runs under Jython (the runtime the repository is built and tested with).
# Dumps, as JSON: (1) the AST of every source file of flatland as parsed by this
# runtime's own parser, (2) what the imported modules actually contain: classes with
# their MRO, the kind and source position of each class attribute, module globals.
import ast, json, os, sys, types

repo, outpath = sys.argv[1], sys.argv[2]
sys.path.insert(0, repo)
import re
RE = type(re.compile('x'))

def conv(n):
    if isinstance(n, list):
        return [conv(x) for x in n]
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f, None))
        if hasattr(n, 'lineno'):
            d['lineno'] = n.lineno
            d['col_offset'] = n.col_offset
        return d
    if n is None or n is True or n is False:
        return n
    if isinstance(n, unicode):
        return {'$': 'u', 'v': n}
    if isinstance(n, str):
        return {'$': 'b', 'v': n.decode('latin-1')}
    if isinstance(n, (int, long)):
        return {'$': 'i', 'v': str(n)}
    if isinstance(n, float):
        return {'$': 'f', 'v': repr(n)}
    return {'$': 'x', 'v': repr(n)}

files = {}
mods = []
for dp, dn, fn in os.walk(os.path.join(repo, 'flatland')):
    dn.sort()
    for name in sorted(fn):
        if not name.endswith('.py'):
            continue
        p = os.path.join(dp, name)
        src = open(p, 'rb').read().replace('\r\n', '\n')
        rel = os.path.relpath(p, repo)
        mod = rel[:-3].replace(os.sep, '.')
        if mod.endswith('.__init__'):
            mod = mod[:-9]
        try:
            files[mod] = {'path': rel, 'ast': conv(ast.parse(src))}
        except SyntaxError as e:
            files[mod] = {'path': rel, 'error': repr(e)}
        mods.append(mod)

loaded = {}
errors = {}
for m in mods:
    try:
        __import__(m)
        loaded[m] = sys.modules[m]
    except Exception as e:
        errors[m] = repr(e)

from flatland.util import base as ub

def clsname(c):
    return '%s:%s' % (getattr(c, '__module__', '?'), c.__name__)

def funcinfo(f):
    co = getattr(f, 'func_code', None) or getattr(f, '__code__', None)
    return {'k': 'func', 'name': f.__name__, 'mod': f.__module__,
            'file': getattr(co, 'co_filename', None), 'line': getattr(co, 'co_firstlineno', None)}

classes = {}
seen_cls = {}

ids = {}
kept = []
def desc(v, depth=0):
    """description of a value; mutable objects and instances carry the number of the object (their identity)"""
    d = desc_(v, depth)
    if d['k'] in ('list', 'set', 'dict', 'inst'):
        if id(v) not in ids:
            ids[id(v)] = len(ids) + 1; kept.append(v)
        d['id'] = ids[id(v)]
    return d

def desc_(v, depth=0):
    if v is None or v is True or v is False:
        return {'k': 'const', 'v': v}
    if isinstance(v, ub._symbol):
        return {'k': 'symbol', 'name': v.name}
    t = type(v)
    if t in (int, long):
        return {'k': 'int', 'v': str(v)}
    if isinstance(v, int) and t.__mro__[1] is int and t.__module__ != '__builtin__':
        return {'k': 'namedint', 'name': t.__name__, 'v': int(v)}
    if t is unicode:
        return {'k': 'str', 'v': v}
    if t is str:
        return {'k': 'bytes', 'v': v.decode('latin-1')}
    if t is float:
        return {'k': 'float', 'v': repr(v)}
    if t is tuple and depth < 4:
        return {'k': 'tuple', 'v': [desc(x, depth + 1) for x in v]}
    if t is list and depth < 4:
        return {'k': 'list', 'v': [desc(x, depth + 1) for x in v]}
    if t in (set, frozenset) and depth < 4:
        return {'k': 'set', 'v': [desc(x, depth + 1) for x in sorted(v)]}
    if t is dict and depth < 4:
        return {'k': 'dict', 'v': [[desc(a, depth + 1), desc(b, depth + 1)] for a, b in sorted(v.items(), key=repr)]}
    if isinstance(v, types.ModuleType):
        return {'k': 'module', 'name': v.__name__}
    if isinstance(v, (type, types.ClassType)):
        reg(v)
        return {'k': 'class', 'q': clsname(v)}
    if isinstance(v, types.FunctionType):
        return funcinfo(v)
    if isinstance(v, types.MethodType):
        return dict(funcinfo(v.im_func), k='method')
    if isinstance(v, RE):
        return {'k': 'regex', 'pattern': v.pattern, 'flags': v.flags}
    if t.__name__ in ('attrgetter', 'itemgetter'):
        got = []
        class Probe(object):
            def __getattr__(self, n): got.append(n); return self
            def __getitem__(self, n): got.append(n); return self
        try: v(Probe())
        except Exception: got = ['?']
        return {'k': 'builtin', 'name': t.__name__, 'repr': '%s:%s' % (t.__name__, '.'.join(str(x) for x in got))}
    if isinstance(v, (types.BuiltinFunctionType,)) or t.__name__ in ('builtin_function_or_method', 'attrgetter', 'itemgetter'):
        return {'k': 'builtin', 'name': getattr(v, '__name__', t.__name__), 'repr': repr(v)}
    return {'k': 'inst', 'cls': clsname(t)}

def classattr(v):
    if isinstance(v, property):
        d = {'k': 'property'}
        if v.fget is not None and isinstance(v.fget, types.FunctionType):
            d['fget'] = funcinfo(v.fget)
        if v.fset is not None and isinstance(v.fset, types.FunctionType):
            d['fset'] = funcinfo(v.fset)
        return d
    if isinstance(v, staticmethod):
        try:
            return {'k': 'staticmethod', 'f': desc(v.__get__(None, object))}
        except Exception:
            return {'k': 'staticmethod', 'f': {'k': 'inst', 'cls': '?'}}
    if isinstance(v, classmethod):
        f = v.__get__(None, object)
        f = getattr(f, 'im_func', f)
        return {'k': 'classmethod', 'f': desc(f)}
    tn = type(v).__name__
    if tn == 'class_cloner':
        f = v.cloner.__get__(None, object)
        f = getattr(f, 'im_func', f)
        return {'k': 'class_cloner', 'f': desc(f)}
    if tn in ('assignable_class_property', 'assignable_property'):
        return {'k': tn, 'f': desc(v.fget)}
    if tn == 'lazy_property':
        return {'k': tn, 'f': desc(v._deferred)}
    return desc(v)

def reg(c):
    q = clsname(c)
    if q in seen_cls:
        return
    seen_cls[q] = 1
    d = {'q': q, 'mro': [], 'attrs': {}}
    classes[q] = d
    try:
        mro = c.__mro__
    except AttributeError:
        mro = (c,)
    for b in mro:
        d['mro'].append(clsname(b))
    mod = getattr(c, '__module__', '') or ''
    if mod.startswith('flatland') or mod.startswith('six'):
        for b in mro:
            reg(b)
        for k, v in c.__dict__.items():
            if k in ('__dict__', '__weakref__', '__doc__', '__module__'):
                continue
            try:
                d['attrs'][k] = classattr(v)
            except Exception as e:
                d['attrs'][k] = {'k': 'inst', 'cls': 'err:%r' % (e,)}

modout = {}
for m, mod in loaded.items():
    g = {}
    real = mod
    for a in ('_deferred_module__shadowing',):
        if a in getattr(mod, '__dict__', {}):
            real = mod.__dict__[a]
    for k, v in list(real.__dict__.items()):
        if k.startswith('__'):
            continue
        try:
            g[k] = desc(v)
        except Exception as e:
            g[k] = {'k': 'inst', 'cls': 'err:%r' % (e,)}
    # names offered lazily (deferred modules, see flatland.util.deferred)
    for k in (getattr(mod, '__all__', None) or ()):
        if k in g or k.startswith('__'):
            continue
        try:
            g[k] = desc(getattr(mod, k))
        except Exception as e:
            pass
    modout[m] = g

def un(o):
    return o
f = open(outpath, 'wb')
f.write(json.dumps({'files': files, 'globals': modout, 'classes': classes, 'errors': errors}))
f.close()
