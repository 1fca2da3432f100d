"""Every name and attribute that is used exists: C40.

A flow analysis over the syntax trees of all modules, and the abstract interpretation of decoding, execution, formatting, the
console and the library functions with a record of every failed name or attribute lookup on a feasible path."""
import ast
import builtins
import json
import os
import subprocess
import sys
from absint.load import Loader, PKG
from absint.num import Unsupported
from .report import Report

PYS = ('/opt/venv-pypy/bin/python',)
_lib = {}
EXTRA = {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__cached__', '__class__', '__module__',
         '__qualname__', '__dict__'}


def library(name):
    """Names a library module defines (asked of the interpreter the package runs on), or None if unknown."""
    if name not in _lib:
        got = None
        code = ('import sys,json,importlib\ntry:\n m=importlib.import_module(sys.argv[1])\n print(json.dumps(sorted(set(dir(m)))))\n'
                'except ImportError:\n print("null")\n')
        for py in PYS + (sys.executable,):
            try:
                p = subprocess.run([py, '-S', '-E', '-c', code, name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd='/')
                if p.returncode == 0:
                    x = json.loads(p.stdout.decode())
                    if x is not None:
                        got = set(x) | (got or set())
            except (OSError, ValueError):
                pass
        _lib[name] = got
    return _lib[name]


_has = {}


def has(mod, name):
    """Whether a library module has the attribute (also one it makes on demand)."""
    x = library(mod)
    if x is None or name in x:
        return True
    if (mod, name) not in _has:
        code = 'import sys,importlib\nm=importlib.import_module(sys.argv[1])\nsys.exit(0 if hasattr(m,sys.argv[2]) else 7)\n'
        got = False
        for py in PYS:
            try:
                got = got or subprocess.run([py, '-S', '-E', '-c', code, mod, name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd='/').returncode == 0
            except OSError:
                pass
        _has[mod, name] = got
    return _has[mod, name]


def modules(repo):
    out = []
    for d, dirs, files in os.walk(os.path.join(repo, PKG)):
        dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__pycache__')))
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), repo)[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel.pop()
                out.append('.'.join(rel))
    return out


class Mod(object):
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.globals = set()
        self.stars = []
        self.imports = {}         # name bound -> module it is bound to
        self.loaded = set()       # modules importing this one loads
        self.opaque = False       # a star import of something unknown


def targets(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def bound_here(body):
    """Names bound in this scope (not in nested scopes)."""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif type(n).__name__ in ('MatchAs', 'MatchStar') and n.name:
            out.add(n.name)
        elif type(n).__name__ == 'MatchMapping' and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return out


def declared(body, kind):
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, kind):
            out.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return out


def params(a):
    out = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


class Package(object):
    def __init__(self, repo):
        self.repo = repo
        ld = Loader(repo)
        self.mods = {}
        for n in modules(repo):
            path, tree, is_pkg = ld(n)
            self.mods[n] = Mod(n, path, tree, is_pkg)
        if PKG + '._version' not in self.mods:
            path, tree, is_pkg = ld(PKG + '._version')
            self.mods[PKG + '._version'] = Mod(PKG + '._version', path, tree, is_pkg)
        for m in self.mods.values():
            self.scan(m)
        for m in self.mods.values():
            self.close(m, set())
        self.attributes()

    def absolute(self, m, level, name):
        if level == 0:
            return name or ''
        base = m.name if m.is_pkg else m.name.rpartition('.')[0]
        for _ in range(level - 1):
            base = base.rpartition('.')[0]
        return base + ('.' + name if name else '')

    def scan(self, m):
        m.globals = bound_here(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.globals.update(n.names)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    parts = a.name.split('.')
                    for k in range(len(parts)):
                        m.loaded.add('.'.join(parts[:k + 1]))
                    m.imports[a.asname or parts[0]] = a.name if a.asname else parts[0]
            elif isinstance(n, ast.ImportFrom):
                base = self.absolute(m, n.level, n.module)
                m.loaded.add(base)
                for a in n.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        sub = base + '.' + a.name
                        if sub in self.mods:
                            m.loaded.add(sub)
                            m.imports[a.asname or a.name] = sub

    def exported(self, name, seen):
        """Names bound by importing everything of a module."""
        if name in seen:
            return set()
        if name not in self.mods:
            x = library(name)
            return None if x is None else set(n for n in x if not n.startswith('_'))
        m = self.mods[name]
        out = set(m.globals)
        for s in m.stars:
            x = self.exported(s, seen | {name})
            if x is None:
                return None
            out |= x
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
                return out
        return set(n for n in out if not n.startswith('_'))

    def close(self, m, _):
        for s in m.stars:
            x = self.exported(s, {m.name})
            if x is None:
                m.opaque = True
            else:
                m.globals |= x
                # modules reached through a star import keep their binding
                if s in self.mods:
                    for n, t in self.mods[s].imports.items():
                        m.imports.setdefault(n, t)
        # modules loaded transitively
        todo, done = list(m.loaded), set()
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            if '.' in x:
                todo.append(x.rpartition('.')[0])
            if x in self.mods:
                todo += list(self.mods[x].loaded)
        m.loaded = done | {m.name, PKG}

    def attributes(self):
        """Attribute names that exist anywhere."""
        self.stored = set()          # obj.X = ...  (any object), and keywords/fields that become attributes
        self.dynamic = False
        nones, others = set(), set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
                    for t in n.targets:
                        if isinstance(t, (ast.Attribute, ast.Name)):
                            nones.add(id(t))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and id(n) not in nones:
                    others.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in nones:
                    others.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    others.add(n.name)
                elif isinstance(n, ast.Call):
                    others.update(k.arg for k in n.keywords if k.arg)
                    if isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        others.update(w for a in n.args for c in ast.walk(a) if isinstance(c, ast.Constant) and isinstance(c.value, str) for w in words(c.value))
        self.only_none = set(n.attr for m in self.mods.values() for n in ast.walk(m.tree)
                             if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)) - others
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call):
                    f = n.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                    if nm in ('setattr', '__setattr__', 'update', 'namedtuple', 'make_option', 'add_argument', 'add_option', 'type'):
                        for a in list(n.args) + [k.value for k in n.keywords]:
                            for c in ast.walk(a):
                                if isinstance(c, ast.Constant) and isinstance(c.value, str):
                                    self.stored.update(words(c.value))
                    for k in n.keywords:
                        if k.arg:
                            self.stored.add(k.arg)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    for d in n.decorator_list:
                        for c in ast.walk(d):
                            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                                self.stored.update(words(c.value))
        self.members = set()
        for m in self.mods.values():
            self.members |= m.globals
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.members |= bound_here(n.body)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.members.add(n.name)
        self.library = set()
        for t in vars(builtins).values():
            self.library |= set(dir(t))
        for t in ((x for x in ()), lambda: 0, iter(()), range(0), {}.items(), {}.keys(), {}.values(), re_type()):
            self.library |= set(dir(t))
        for m in self.mods.values():
            for x in set(m.loaded):
                if x not in self.mods:
                    names = library(x)
                    if names is None:
                        continue
                    self.library |= names
                    self.library |= members(x)


def re_type():
    import re
    return re.compile('')


_mem = {}


def members(name):
    """Attributes of the classes and objects of a library module."""
    if name not in _mem:
        code = ('import sys,json,importlib\nm=importlib.import_module(sys.argv[1])\nr=set()\nfor v in vars(m).values():\n'
                ' r|=set(x for x in dir(v) if isinstance(x,str))\n if hasattr(v,"__init__") and isinstance(v,type):\n  try: r|=set(dir(v()))\n  except BaseException: pass\n'
                'print(json.dumps(sorted(r)))\n')
        got = set()
        for py in PYS + (sys.executable,):
            try:
                p = subprocess.run([py, '-S', '-E', '-c', code, name], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd='/', timeout=60)
                if p.returncode == 0:
                    got |= set(json.loads(p.stdout.decode().strip().split('\n')[-1]))
            except (OSError, ValueError, subprocess.TimeoutExpired):
                pass
        _mem[name] = got
    return _mem[name]


def words(s):
    import re
    return re.findall(r'[A-Za-z_]\w*', s)


class Flow(object):
    """Names possibly assigned at each point of one function (assigned on some path that reaches it)."""

    def __init__(self, chk, fn, scope):
        self.chk, self.scope = chk, scope
        self.fn = fn

    def start(self):
        s = set(self.scope.params)
        body = self.fn.body if isinstance(self.fn.body, list) else [ast.Expr(self.fn.body)]
        self.loops = []
        self.block(body, s)

    # each method takes the set before and returns the set after, or None when the end is not reached
    def block(self, body, s):
        for x in body:
            if s is None:
                return None
            s = self.stmt(x, s)
        return s

    def expr(self, e, s):
        """Uses in evaluation order; returns the set after (named expressions)."""
        if e is None:
            return s
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.use(e, s)
            return s
        if isinstance(e, ast.NamedExpr):
            s = self.expr(e.value, s)
            return s | {e.target.id}
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                s = self.expr(d, s)
            return s
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = set()
            for g in e.generators:
                own |= set(targets(g.target))
            first = e.generators[0].iter
            s = self.expr(first, s)
            t = s | own
            for i, g in enumerate(e.generators):
                if i:
                    self.expr(g.iter, t)
                for c in g.ifs:
                    t = self.expr(c, t)
            for f in ('elt', 'key', 'value'):
                if getattr(e, f, None) is not None:
                    t = self.expr(getattr(e, f), t)
            return s | (t - own)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.FormattedValue, ast.Slice)) or isinstance(c, ast.AST) and not isinstance(c, ast.expr_context):
                s = self.expr(c, s)
        return s

    def use(self, n, s):
        v = n.id
        if v in self.scope.locals and v not in s:
            self.chk.bad('unbound local', self.scope, n, "local variable '%s' is never assigned before this use" % v)
        elif v in self.scope.locals:
            self.chk.good('unbound local')

    def bind(self, t, s):
        if isinstance(t, ast.Name):
            return s | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                s = self.bind(x, s)
            return s
        if isinstance(t, ast.Starred):
            return self.bind(t.value, s)
        return self.expr(t, s)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, n, s):
        t = type(n).__name__
        if t in ('FunctionDef', 'AsyncFunctionDef', 'ClassDef'):
            for d in n.decorator_list:
                s = self.expr(d, s)
            if t == 'ClassDef':
                for x in n.bases + [k.value for k in n.keywords]:
                    s = self.expr(x, s)
            else:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    s = self.expr(d, s)
            return s | {n.name}
        if t == 'Assign':
            s = self.expr(n.value, s)
            for x in n.targets:
                s = self.bind(x, s)
            return s
        if t == 'AugAssign':
            if isinstance(n.target, ast.Name):
                self.use(ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), s)
            else:
                s = self.expr(n.target, s)
            s = self.expr(n.value, s)
            return self.bind(n.target, s)
        if t == 'AnnAssign':
            if n.value is not None:
                s = self.expr(n.value, s)
                return self.bind(n.target, s)
            return s
        if t in ('Return',):
            self.expr(n.value, s)
            return None
        if t == 'Raise':
            s = self.expr(n.exc, s)
            self.expr(n.cause, s)
            return None
        if t in ('Break', 'Continue'):
            if self.loops:
                self.loops[-1][t].append(s)
            return None
        if t == 'If':
            s = self.expr(n.test, s)
            a = self.block(n.body, s)
            b = self.block(n.orelse, s)
            return self.join(a, b)
        if t in ('While', 'For', 'AsyncFor'):
            if t == 'While':
                s = self.expr(n.test, s)
                forever = isinstance(n.test, ast.Constant) and bool(n.test.value)
                inside = s
            else:
                s = self.expr(n.iter, s)
                forever = False
                inside = self.bind(n.target, s)
            # what a later iteration may find assigned: everything the body assigns
            again = set(inside)
            for x in n.body:
                again |= bound_here([x])
            self.loops.append({'Break': [], 'Continue': []})
            quiet, self.chk.muted = self.chk.muted, True
            end = self.block(n.body, set(inside))
            reach = [x for x in [end] + self.loops[-1]['Continue'] if x is not None]
            self.loops.pop()
            self.chk.muted = quiet
            loop = inside
            for x in reach:
                loop = loop | x
            self.loops.append({'Break': [], 'Continue': []})
            end = self.block(n.body, set(loop))
            info = self.loops.pop()
            out = None if forever else s
            for x in [end] + info['Continue']:
                if x is not None and not forever:
                    out = self.join(out, x)
            if n.orelse and out is not None:
                out = self.block(n.orelse, out)
            for x in info['Break']:
                out = self.join(out, x)
            return out
        if t in ('Try', 'TryStar'):
            everything = set(s) | set(x for b in n.body for x in bound_here([b]))
            a = self.block(n.body, set(s))
            if a is not None and n.orelse:
                a = self.block(n.orelse, a)
            for h in n.handlers:
                hs = set(everything)
                if h.type is not None:
                    hs = self.expr(h.type, hs)
                if h.name:
                    hs = hs | {h.name}
                b = self.block(h.body, hs)
                if b is not None and h.name:
                    b = b - {h.name}
                a = self.join(a, b)
            if n.finalbody:
                allx = everything | set(x for h in n.handlers for x in bound_here(h.body)) | bound_here(n.orelse)
                f = self.block(n.finalbody, allx)
                if f is None:
                    return None
                return None if a is None else a | (f - everything) | (f & a)
            return a
        if t in ('With', 'AsyncWith'):
            for i in n.items:
                s = self.expr(i.context_expr, s)
                if i.optional_vars is not None:
                    s = self.bind(i.optional_vars, s)
            before = set(s)
            a = self.block(n.body, s)
            return a if a is not None else before      # the manager may swallow an exception
        if t == 'Delete':
            for x in n.targets:
                if isinstance(x, ast.Name):
                    self.use(ast.copy_location(ast.Name(x.id, ast.Load()), x), s)
                    s = s - {x.id}
                else:
                    s = self.expr(x, s)
            return s
        if t in ('Import', 'ImportFrom'):
            return s | set(a.asname or a.name.split('.')[0] for a in n.names)
        if t == 'Match':
            s = self.expr(n.subject, s)
            out = s
            for c in n.cases:
                cs = s | set(x for x in bound_here([c.pattern]))
                cs = self.expr(c.guard, cs)
                out = self.join(out, self.block(c.body, cs))
            return out
        if t in ('Global', 'Nonlocal', 'Pass'):
            return s
        for c in ast.iter_child_nodes(n):
            s = self.expr(c, s)
        return s


class Scope(object):
    def __init__(self, mod, node, parent, kind, qual):
        self.mod, self.node, self.parent, self.kind, self.qual = mod, node, parent, kind, qual
        self.params, self.locals, self.globals, self.nonlocals = (), set(), set(), set()


class Checker(object):
    def __init__(self, pkg, rep):
        self.pkg, self.rep = pkg, rep
        self.muted = False
        self.seen = set()

    def good(self, rule):
        if not self.muted:
            self.rep.good('C40', rule)

    def bad(self, rule, scope, n, what):
        if self.muted:
            return
        where = '%s:%s:%d' % (scope.mod.path, scope.qual, getattr(n, 'lineno', 0))
        k = (rule, where, what)
        if k in self.seen:
            return
        self.seen.add(k)
        self.rep.violation('C40', rule, '%s:%s' % (scope.mod.path, scope.qual), what, where, {'line': getattr(n, 'lineno', 0)},
                           key='%s:%s/%s' % (scope.mod.path, scope.qual, what))

    def module(self, m):
        top = Scope(m, m.tree, None, 'module', '<module>')
        top.locals = m.globals
        self.rep.units.add(m.path)
        self.walk(m.tree.body, top, None)

    # ---- names
    def resolve(self, name, scope):
        s, first = scope, True
        while s.kind != 'module':
            if s.kind != 'class' or first:
                if name in s.globals:
                    break
                if name in s.locals or name in s.params:
                    return True
            s, first = s.parent, False
        m = scope.mod
        return name in m.globals or name in EXTRA or hasattr(builtins, name) and name not in ('copyright', 'credits', 'license', 'exit', 'quit') \
            or name in ('exit', 'quit') or m.opaque

    def walk(self, body, scope, cls):
        for n in body if isinstance(body, list) else [body]:
            self.node(n, scope, cls)

    def node(self, n, scope, cls, guarded=()):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                self.node(d, scope, cls, guarded)
            if not isinstance(n, ast.Lambda):
                for d in n.decorator_list:
                    self.node(d, scope, cls, guarded)
            name = getattr(n, 'name', '<lambda>')
            f = Scope(scope.mod, n, scope, 'function', name if scope.kind == 'module' else scope.qual + '.' + name)
            body = n.body if isinstance(n.body, list) else [n.body]
            f.params = tuple(params(a))
            f.globals = declared(body, ast.Global) if isinstance(n.body, list) else set()
            f.nonlocals = declared(body, ast.Nonlocal) if isinstance(n.body, list) else set()
            f.locals = (bound_here(body) - f.globals - f.nonlocals) | set(f.params)
            self.rep.functions.add('%s:%s' % (scope.mod.path, f.qual))
            in_class = scope.kind == 'class' and not isinstance(n, ast.Lambda)
            static = in_class and any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in n.decorator_list)
            c = cls
            if in_class and f.params and not static:
                f.self = f.params[0]
                c = scope.node
            for x in body:
                self.node(x, f, c, guarded)
            Flow(self, n, f).start()
            return
        if isinstance(n, ast.ClassDef):
            for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.node(x, scope, cls, guarded)
            c = Scope(scope.mod, n, scope, 'class', n.name if scope.kind == 'module' else scope.qual + '.' + n.name)
            c.locals = bound_here(n.body)
            for x in n.body:
                self.node(x, c, n, guarded)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            c = Scope(scope.mod, n, scope, 'function', scope.qual)
            c.self = getattr(scope, 'self', None)
            for g in n.generators:
                c.locals |= set(targets(g.target))
            self.node(n.generators[0].iter, scope, cls, guarded)
            for i, g in enumerate(n.generators):
                if i:
                    self.node(g.iter, c, cls, guarded)
                for x in g.ifs:
                    self.node(x, c, cls, guarded)
            for f in ('elt', 'key', 'value'):
                if getattr(n, f, None) is not None:
                    self.node(getattr(n, f), c, cls, guarded)
            return
        if isinstance(n, ast.Try):
            # a handler for missing names makes the body a probe
            probe = any(h.type is None or any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in
                        ('NameError', 'AttributeError', 'ImportError', 'ModuleNotFoundError', 'UnboundLocalError') for x in ast.walk(h.type)) for h in n.handlers)
            for x in n.body:
                self.node(x, scope, cls, guarded + (('try',) if probe else ()))
            for h in n.handlers:
                self.node(h, scope, cls, guarded)
            for x in n.orelse + n.finalbody:
                self.node(x, scope, cls, guarded)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            if not guarded:
                self.imported(n, scope)
            return
        if isinstance(n, (ast.If, ast.IfExp)):
            probed = set(guarded)
            for x in ast.walk(n.test):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 \
                        and isinstance(x.args[1], ast.Constant):
                    probed.add(x.args[1].value)
                elif isinstance(x, ast.Attribute) and x.attr in self.pkg.only_none:
                    probed.add(('none', x.attr))      # the branch taken when it is not None is dead
            self.node(n.test, scope, cls, guarded)
            for part in (n.body, n.orelse):
                for x in part if isinstance(part, list) else [part]:
                    self.node(x, scope, cls, tuple(probed))
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and 'try' not in guarded:
                if self.resolve(n.id, scope):
                    self.good('every name resolves')
                else:
                    self.bad('every name resolves', scope, n, "name '%s' is not defined anywhere" % n.id)
            return
        if isinstance(n, ast.Attribute):
            self.node(n.value, scope, cls, guarded)
            if isinstance(n.ctx, ast.Load) and 'try' not in guarded and n.attr not in guarded:
                self.attribute(n, scope, cls, guarded)
            return
        for c in ast.iter_child_nodes(n):
            self.node(c, scope, cls, guarded)

    def imported(self, n, scope):
        pkg = self.pkg
        if isinstance(n, ast.Import):
            for a in n.names:
                ok = a.name in pkg.mods or (not a.name.split('.')[0] == PKG and True)
                if ok:
                    self.good('every import resolves')
                else:
                    self.bad('every import resolves', scope, n, 'no module %s' % a.name)
            return
        base = pkg.absolute(scope.mod, n.level, n.module)
        for a in n.names:
            if a.name == '*':
                continue
            if base in pkg.mods:
                ok = a.name in pkg.mods[base].globals or base + '.' + a.name in pkg.mods or pkg.mods[base].opaque or a.name in EXTRA
            elif base.split('.')[0] == PKG:
                ok = False
            elif base == '__future__':
                ok = True
            else:
                ok = has(base, a.name) or library(base + '.' + a.name) is not None
            if ok:
                self.good('every import resolves')
            else:
                self.bad('every import resolves', scope, n, "'%s' has no name '%s'" % (base, a.name))

    # ---- attributes
    def module_of(self, e, scope):
        """Module an expression denotes, when that is certain."""
        if isinstance(e, ast.Name):
            s, first = scope, True
            while s.kind != 'module':
                if (s.kind != 'class' or first) and (e.id in s.locals or e.id in s.params):
                    return None
                s, first = s.parent, False
            m = scope.mod
            if e.id in m.imports and self.rebound(m, e.id) == 0:
                return m.imports[e.id]
            return None
        if isinstance(e, ast.Attribute):
            b = self.module_of(e.value, scope)
            if b is None:
                return None
            sub = b + '.' + e.attr
            if sub in self.pkg.mods:
                if b in self.pkg.mods and e.attr in self.pkg.mods[b].globals and self.pkg.mods[b].imports.get(e.attr) != sub:
                    return None
                return sub
        return None

    def rebound(self, m, name):
        k = 0
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                k += 1
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                k += 1
        return k

    def attribute(self, n, scope, cls, guarded=()):
        pkg = self.pkg
        mod = self.module_of(n.value, scope)
        if mod is not None:
            rule = 'every module attribute exists'
            if mod in pkg.mods:
                m = pkg.mods[mod]
                sub = mod + '.' + n.attr
                ok = n.attr in m.globals or m.opaque or n.attr in EXTRA or (sub in pkg.mods and (sub in scope.mod.loaded or sub in self.main_loaded()))
            else:
                ok = has(mod, n.attr) or n.attr in EXTRA or mod + '.' + n.attr in scope.mod.loaded
            if ok:
                self.good(rule)
            else:
                self.bad(rule, scope, n, "module '%s' has no attribute '%s'" % (mod, n.attr))
            return
        known = pkg.stored | pkg.members | pkg.library | EXTRA
        s = scope
        selfname = None
        while s is not None and s.kind == 'function':
            selfname = getattr(s, 'self', None)
            if selfname:
                break
            s = s.parent
        if cls is not None and selfname and isinstance(n.value, ast.Name) and n.value.id == selfname:
            names = self.class_names(scope.mod, cls)
            rule = 'every attribute of self exists'
            if names is not None:
                if n.attr in names or n.attr in pkg.stored or n.attr in EXTRA:
                    self.good(rule)
                else:
                    # defined by a subclass that is the one instantiated
                    if n.attr in self.subclass_names(scope.mod, cls):
                        self.good(rule)
                    else:
                        self.bad(rule, scope, n, "'%s' has no attribute '%s'" % (cls.name, n.attr))
                return
        rule = 'every attribute exists somewhere'
        dead = isinstance(n.value, ast.Attribute) and ('none', n.value.attr) in guarded
        if n.attr in known or dead:
            self.good(rule)
        else:
            self.bad(rule, scope, n, "attribute '%s' is defined nowhere" % n.attr)

    def main_loaded(self):
        return self.pkg.mods[PKG].loaded

    def find_class(self, mod, e):
        """(module, ClassDef) an expression names, 'library' names, or None."""
        if isinstance(e, ast.Name):
            for m in [mod] + [self.pkg.mods[x] for x in mod.stars if x in self.pkg.mods]:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef) and n.name == e.id:
                        return m, n
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if (a.asname or a.name) == e.id:
                            base = self.pkg.absolute(mod, n.level, n.module)
                            if base in self.pkg.mods:
                                return self.find_class(self.pkg.mods[base], ast.Name(a.name, ast.Load()))
                            return self.lib_class(base, a.name)
            if hasattr(builtins, e.id):
                return set(dir(getattr(builtins, e.id)))
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in mod.imports:
            b = mod.imports[e.value.id]
            if b in self.pkg.mods:
                return self.find_class(self.pkg.mods[b], ast.Name(e.attr, ast.Load()))
            return self.lib_class(b, e.attr)
        return None

    def lib_class(self, mod, name):
        got = members(mod)
        return got or None

    def class_names(self, mod, cls, seen=()):
        """Attribute names of a class and its bases, None when some base is unknown."""
        if cls.name in seen:
            return set()
        out = bound_here(cls.body) | set(dir(object))
        if '__getattr__' in out or '__getattribute__' in bound_here(cls.body):
            return None
        for b in cls.bases:
            r = self.find_class(mod, b)
            if r is None:
                return None
            if isinstance(r, set):
                out |= r
                continue
            x = self.class_names(r[0], r[1], seen + (cls.name,))
            if x is None:
                return None
            out |= x
        for n in ast.walk(cls):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
        return out

    def subclass_names(self, mod, cls):
        out = set()
        for m in self.pkg.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef) and any((isinstance(b, ast.Name) and b.id == cls.name) or (isinstance(b, ast.Attribute) and b.attr == cls.name)
                                                       for b in n.bases):
                    out |= bound_here(n.body) | self.subclass_names(m, n)
        return out


def run_ast(S, args, props):
    rep = Report()
    try:
        pkg = Package(S.I.loader.repo)
    except SyntaxError as e:
        rep.undecided('C40', 'parse', 'package', str(e))
        return rep
    c = Checker(pkg, rep)
    for n in sorted(pkg.mods):
        c.module(pkg.mods[n])
    return rep


def wrap(fn):
    """Run another task and report only failed name and attribute lookups."""
    def f(S, args, props):
        inner, iargs, iprops = args
        I = S.I
        I.undefined, I.undefined_seen = [], set()
        try:
            r = fn(inner, S, iargs, set(iprops))
            rep = Report()
            rep.units, rep.functions = r.units, r.functions
            for o in r.open:
                rep.undecided('C40', o['rule'], o['unit'], o['why'])
            n = 0
            for exc, name, msg, loc, w in I.undefined:
                if exc.expected:
                    continue
                file, qual, line = loc[-1]
                if file.startswith('driver_'):
                    continue
                n += 1
                rep.violation('C40', 'no feasible path looks up a name or attribute that does not exist', '%s%r' % (inner, iargs[:2]), '%s: %s' % (name, msg),
                              '%s:%s:%d' % (file, qual, line), {}, key='%s:%s/%s' % (file, qual, msg))
            if not n:
                rep.good('C40', 'no feasible path looks up a name or attribute that does not exist', max(1, len(rep.functions)))
            return rep
        finally:
            I.undefined = None
    return f
