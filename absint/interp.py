"""Abstract interpreter over the Python syntax tree.

One pass over the program text: both arms of a branch are analysed under their
path condition and their states are joined (guarded join) right after it, so no
path is enumerated and nothing is run on concrete input.  Whatever the domain
cannot represent raises Unsupported, which leaves the unit undecided.
"""
import ast
import builtins as _builtins
import string as _string
from .num import Mgr, Num, SI, SB, Unsupported
from .values import *
from . import text as T
from . import more

INTS = (int, SI, SB)
TXT = (str, AStr)
MAXDEPTH = 160
OBJECT_ATTRS = frozenset(dir(object)) | frozenset(('__dict__', '__module__', '__weakref__'))
CLASS_ATTRS = frozenset(dir(type))


def text_alts(v):
    if type(v) is str:
        return [(v, 1)]
    if len(v.parts) == 1 and type(v.parts[0]) is tuple and v.parts[0][0] == 'map':
        return v.parts[0][1]
    return None


def isint(v):
    return type(v) in (int, bool, SI, SB)


class FuncInfo(object):
    def __init__(self, node):
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        if isinstance(node, ast.Lambda):
            body = [node.body]
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            body = [g.target for g in node.generators]
        else:
            body = node.body
        a = getattr(node, 'args', None)
        if isinstance(a, ast.arguments):
            for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs:
                self.locals.add(x.arg)
            if a.vararg:
                self.locals.add(a.vararg.arg)
            if a.kwarg:
                self.locals.add(a.kwarg.arg)
        for b in body:
            self.scan(b)
        self.locals -= self.globals
        self.locals -= self.nonlocals

    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.scan(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.scan(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        for c in ast.iter_child_nodes(n):
            self.scan(c)


class Loop(object):
    __slots__ = ('brk', 'cont', 'frame')

    def __init__(self, frame):
        self.brk = 0
        self.cont = 0
        self.frame = frame


class RaisedOut(object):
    """An exception that left the analysed unit."""
    def __init__(self, guard, exc):
        self.guard, self.exc = guard, exc

    @property
    def name(self):
        return self.exc.cls.name


class Interp(object):
    LOOP_CAP = 700

    def __init__(self, loader):
        self.loader = loader          # modname -> (path, ast.Module, is_pkg) or None
        self.modules = {}
        self.gaps = []        # statements of module and class bodies that could not be represented
        self.infos = {}
        self.journal = None
        self.jbig = set()
        self.reset(exact=True)
        from . import natives
        self.nat = natives
        self.builtins = natives.make_builtins(self)
        self.native_modules = {}
        self.on_yield = None

    # ---- unit management ---------------------------------------------------
    undefined = None      # list: record uses of undefined names and attributes
    undefined_seen = ()

    def reset(self, exact=False):
        self.m = Mgr(exact=exact)
        self.N = Num(self.m)
        self.pc = 1
        self.frames = []
        self.hs = []
        self.loops = []
        self.cur_exc = []
        self.out = []
        self.script = []      # lines the program reads from its input
        self.marks = []       # length of out at each reading
        self.cli = ({}, None)       # command line: options given, file object
        self.levels = []      # log levels set
        self.steps = 0
        self.step_cap = 6000000
        self.touched = {}

    def begin(self, exact=False):
        self.rollback()
        self.reset(exact)
        self.journal = []
        self.jbig = set()

    def jmark(self):
        """A position in the journal after which the first old value of everything written is recorded."""
        self.jbig = set()
        return len(self.journal)

    def revert(self, mark):
        """Everything as it was at this mark."""
        for d, k, old in reversed(self.journal[mark:]):
            if old is ABSENT:
                d.pop(k, None)
            else:
                d[k] = old
        del self.journal[mark:]
        self.jbig = set()

    def rollback(self):
        if self.journal:
            for d, k, old in reversed(self.journal):
                if old is ABSENT:
                    d.pop(k, None)
                else:
                    d[k] = old
        self.journal = None

    # ---- guarded storage -----------------------------------------------------
    def write(self, d, k, val, birth):
        old = d.get(k, ABSENT)
        if self.journal is not None:
            if type(old) is tuple and len(old) > 500:
                # repeated stores into a large sequence: the oldest content is enough
                if id(d) not in self.jbig:
                    self.jbig.add(id(d))
                    self.journal.append((d, k, old))
            else:
                self.journal.append((d, k, old))
        m = self.m
        pc = self.pc
        if pc == 1 or birth == pc or m.and_(birth, m.not_(pc)) == 0:
            d[k] = val
            return
        if old is not ABSENT:
            old = self.restrict(old, m.and_(birth, m.not_(pc)))
        d[k] = self.merge(m.general(pc, birth), val, old)

    def restrict(self, v, care):
        """v simplified for states in care; may return ABSENT."""
        t = type(v)
        if t is SI:
            return self.N.simplify(v, care)
        if t is SB:
            return self.N.mkb(self.m.simplify(v.n, care))
        if t is Choice:
            m = self.m
            alts = []
            for g, a in v.alts:
                x = m.and_(g, care)
                if x:
                    alts.append((g, a, x))
            if not alts:
                return ABSENT
            if len(alts) == 1 and alts[0][2] == care:
                return self.restrict(alts[0][1], care)
            if len(alts) == len(v.alts):
                return v
            return Choice([(g, a) for g, a, x in alts])
        return v

    def read(self, v, pc=None):
        """(value under pc, guard where it is missing)."""
        if pc is None:
            pc = self.pc
        t = type(v)
        if t is Choice:
            m = self.m
            alts = []
            cov = 0
            for g, a in v.alts:
                x = m.and_(g, pc)
                if x:
                    alts.append((g, a))
                    cov = m.or_(cov, x)
            miss = m.and_(pc, m.not_(cov))
            if not alts:
                return ABSENT, miss
            for g, a in alts:
                if type(a) is Unknown:
                    raise Unsupported(a.why)
            if len(alts) == 1:
                return self.restrict(alts[0][1], m.and_(pc, alts[0][0])), miss
            return Choice(alts), miss
        if pc != 1:
            if t is SI:
                return self.N.simplify(v, pc), 0
            if t is SB:
                return self.N.mkb(self.m.simplify(v.n, pc)), 0
        if v is ABSENT:
            return ABSENT, pc
        if t is Unknown:
            raise Unsupported(v.why)
        return v, 0

    # ---- join ------------------------------------------------------------------
    def alts(self, v):
        if type(v) is Choice:
            return v.alts
        if v is ABSENT:
            return []
        return [(1, v)]

    def merge(self, g, a, b):
        """a where g holds, else b."""
        if g == 1:
            return a
        if g == 0:
            return b
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if ta is not Choice and tb is not Choice and a is not ABSENT and b is not ABSENT:
            x = self.merge1(g, a, b)
            if x is not None:
                return x[0]
        m = self.m
        ng = m.not_(g)
        alts = [(m.and_(g, x), v) for x, v in self.alts(a)] + [(m.and_(ng, x), v) for x, v in self.alts(b)]
        return self.mkchoice(alts)

    def merge1(self, g, a, b):
        """Join of two plain values when one value can represent both: (value,) or None."""
        ta, tb = type(a), type(b)
        ba, bb = ta in (bool, SB), tb in (bool, SB)
        if ba and bb:
            na = a.n if ta is SB else int(a)
            nb = b.n if tb is SB else int(b)
            return (self.N.mkb(self.m.ite(g, na, nb)),)
        if isint(a) and isint(b):
            if ba or bb:
                return None
            return (self.N.ite(g, a, b),)
        if ta is tb:
            if a is None or ta is float or ta is bytes:
                return (a,) if a == b else None
            if ta is str and a == b:
                return (a,)
            if ta is tuple and len(a) == len(b):
                return (tuple(self.merge(g, x, y) for x, y in zip(a, b)),)
            if ta is PBound and a.self is b.self and a.func is b.func:
                return (a,)
            if ta is AStr and a.parts == b.parts:
                return (a,)
            if ta is PBytes and len(a.items) == len(b.items):
                return (PBytes([self.merge(g, x, y) for x, y in zip(a.items, b.items)]),)
            if ta is PSlice:
                return (PSlice(self.merge(g, a.start, b.start), self.merge(g, a.stop, b.stop),
                               self.merge(g, a.step, b.step)),)
        if ta in (str, AStr) and tb in (str, AStr):
            x, y = text_alts(a), text_alts(b)
            if x is not None and y is not None and len(x) + len(y) < 300:
                m = self.m
                ng = m.not_(g)
                return (T.mkmap(m, [(s, m.and_(g, h)) for s, h in x] + [(s, m.and_(ng, h)) for s, h in y]),)
        return None

    def mkchoice(self, alts):
        out = []
        m = self.m
        ident = {}
        solid = []           # positions of alternatives another one may merge with
        for g, v in alts:
            if g == 0:
                continue
            i = ident.get(id(v))
            if i is not None:
                out[i] = (m.or_(out[i][0], g), v)
                continue
            if type(v) is AStr and text_alts(v) is None:
                ident[id(v)] = len(out)
                out.append((g, v))
                continue
            for i in solid:
                h, w = out[i]
                x = self.merge1(g, v, w) if type(v) is type(w) or (isint(v) and isint(w)) or (type(v) in TXT and type(w) in TXT) else None
                if x is not None:
                    ident.pop(id(w), None)
                    out[i] = (m.or_(h, g), x[0])
                    ident[id(x[0])] = i
                    break
            else:
                ident[id(v)] = len(out)
                solid.append(len(out))
                out.append((g, v))
        if len(out) == 1 and out[0][0] == 1:
            return out[0][1]
        if len(out) > 600:
            raise Unsupported('too many alternatives')
        if not out:
            return ABSENT
        return Choice(out)

    def merge_list(self, res):
        """Join of [(guard, value)] with exclusive guards covering the pc."""
        if len(res) > 1:
            live = self.m.any_([g for g, _ in res])
            if live != 1:
                res = [(self.m.general(g, live), v) for g, v in res]
        r = res[-1][1]
        for g, v in reversed(res[:-1]):
            r = self.merge(g, v, r)
        if type(r) is Choice:
            r, miss = self.read(r)
        return r

    def split(self, alts, f):
        m = self.m
        pc0 = self.pc
        res = []
        live = 0
        for g, v in alts:
            p = m.and_(pc0, g)
            if p == 0:
                continue
            self.pc = p
            try:
                r = f(v)
            except DeadPath:
                continue
            res.append((self.pc, r))
            live = m.or_(live, self.pc)
        self.pc = live
        if not res:
            raise DeadPath()
        return self.merge_list(res)

    def branch(self, g, ft, ff):
        return self.split([(g, ft), (self.m.not_(g), ff)], lambda f: f())

    # ---- exceptions --------------------------------------------------------------
    def location(self):
        out = []
        for f in self.frames:
            if f.func is not None:
                out.append((f.env.module.file or f.env.module.name, f.func.qual, f.line))
        return out

    def make_exc(self, name, msg=''):
        cls = self.builtins[name]
        o = Obj(cls, self.pc)
        o.d['args'] = (msg,)
        return o

    def raise_obj(self, exc, guard=None):
        m = self.m
        g = self.pc if guard is None else m.and_(self.pc, guard)
        if g == 0:
            return
        if exc.where is None:
            exc.where = self.location()
        if not self.hs:
            raise Unsupported('exception %s outside of a unit' % exc.cls.name)
        self.hs[-1].append((g, exc))
        self.pc = m.and_(self.pc, m.not_(g))
        if self.pc == 0:
            raise DeadPath()

    def err(self, name, msg='', guard=None):
        exc = self.make_exc(name, msg)
        if name in UNDEFINED:
            self.note_undefined(exc, name, msg, guard)
        self.raise_obj(exc, guard)

    def err_always(self, name, msg=''):
        exc = self.make_exc(name, msg)
        if name in UNDEFINED:
            self.note_undefined(exc, name, msg, None)
        self.raise_obj(exc)
        raise DeadPath()

    def note_undefined(self, exc, name, msg, guard):
        """A use of a name or attribute that does not exist (kept for C40 unless a handler expects it)."""
        if self.undefined is None:
            return
        g = self.pc if guard is None else self.m.and_(self.pc, guard)
        if g == 0 or not self.frames:
            return
        loc = self.location()
        key = (tuple(loc[-1]) if loc else None, name, msg)
        if key in self.undefined_seen:
            return
        from .session import witness
        w = witness(self.m, g, lambda ev: (1,), g, tries=30)
        if w is not None:
            self.undefined.append((exc, name, msg, loc, w))
            self.undefined_seen.add(key)

    # ---- modules --------------------------------------------------------------
    def load_module(self, name):
        mod = self.modules.get(name)
        if mod is not None:
            return mod
        src = self.loader(name)
        if src is None:
            mod = self.nat.native_module(self, name)
            if mod is None:
                self.err_always('ModuleNotFoundError', name)
            self.modules[name] = mod
            return mod
        path, tree, is_pkg = src
        mod = PModule(name, {'__name__': name}, path)
        mod.is_pkg = is_pkg
        self.modules[name] = mod
        env = Env(None, 1, None, 'module', mod)
        env.vars = mod.ns
        fr = Frame(env, None)
        self.frames.append(fr)
        try:
            self.block(tree.body)
        finally:
            self.frames.pop()
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            pm = self.modules.get(parent)
            if pm is None:
                pm = self.load_module(parent)
            pm.ns[child] = mod
        return mod

    def resolve_import(self, mod, level, name):
        if level == 0:
            return name
        base = mod.name if getattr(mod, 'is_pkg', False) else mod.name.rpartition('.')[0]
        for _ in range(level - 1):
            base = base.rpartition('.')[0]
        return base + ('.' + name if name else '')

    def import_dotted(self, name):
        parts = name.split('.')
        mod = None
        for i in range(len(parts)):
            mod = self.load_module('.'.join(parts[:i + 1]))
        return mod

    # ---- statements ------------------------------------------------------------
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        fr = self.frames[-1]
        fr.line = s.lineno
        self.steps += 1
        if self.steps > self.step_cap:
            raise Unsupported('analysis budget exhausted')
        f = STMT.get(type(s))
        if fr.env.kind == 'func':
            if f is None:
                raise Unsupported('statement %s' % type(s).__name__)
            f(self, s)
            return
        nf, nh, loops, pc = len(self.frames), len(self.hs), self.loops, self.pc
        nl = len(loops)
        try:
            if f is None:
                raise Unsupported('statement %s' % type(s).__name__)
            f(self, s)
        except Unsupported as e:
            if self.steps > self.step_cap:
                raise
            del self.frames[nf:]
            del self.hs[nh:]
            self.loops = loops
            del loops[nl:]
            self.pc = pc
            self.bind_unknown(fr, s, e)

    def bind_unknown(self, fr, s, e):
        """The statement of a module or class body cannot be represented: nothing it may have changed is known."""
        why = '%s:%d: %s' % (fr.env.module.file or fr.env.module.name, s.lineno, e)
        self.gaps.append(why)
        names = set()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                if al.name == '*':
                    raise e
                names.add(al.asname or al.name.split('.')[0])
        elif isinstance(s, (ast.Assign, ast.AnnAssign)) and all(
                isinstance(t, ast.Name) or isinstance(t, (ast.Tuple, ast.List)) and
                all(isinstance(x, ast.Name) for x in t.elts)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                names.update([t.id] if isinstance(t, ast.Name) else [x.id for x in t.elts])
        else:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
            ns = fr.env.vars
            names.update(k for k, v in ns.items() if not isinstance(v, PModule) and not k.startswith('__'))
        for n in names:
            self.write(fr.env.vars, n, Unknown(why), fr.env.birth)

    def st_expr(self, s):
        if type(s.value) is ast.Constant:
            return
        self.ev(s.value)

    def st_pass(self, s):
        pass

    def st_assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_annassign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_augassign(self, s):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            v = self.inplace(op, self.load_name(t.id), lambda: self.ev(s.value))
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            v = self.inplace(op, self.getattr(o, t.attr), lambda: self.ev(s.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            v = self.inplace(op, self.getitem(o, k), lambda: self.ev(s.value))
            self.setitem(o, k, v)
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, a, fb):
        return self.binop(op, a, fb(), inplace=True)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v):
        if type(v) is Choice:
            def f(a):
                items = self.sequence(a)
                return tuple(items)
            v = self.split(v.alts, f)
            if type(v) is Choice:
                # alternatives of different length: unpack each
                def g(a):
                    self.unpack(elts, a)
                self.split(v.alts, g)
                return
        items = self.sequence(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            n = len(elts) - 1
            if len(items) < n:
                self.err_always('ValueError', 'not enough values to unpack')
            k = len(items) - n
            mid = PList(items[i:i + k], self.pc)
            vals = list(items[:i]) + [mid] + list(items[i + k:])
            for e, x in zip(elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
            return
        if len(items) != len(elts):
            self.err_always('ValueError', 'wrong number of values to unpack')
        for e, x in zip(elts, items):
            self.assign(e, x)

    def st_del(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, ABSENT)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Obj):
                    self.write(o.d, t.attr, ABSENT, o.birth)
                else:
                    raise Unsupported('del attribute')
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev(t.slice))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.st_del(ast.Delete(targets=[e], lineno=s.lineno))
            else:
                raise Unsupported('del')

    def st_if(self, s):
        c = self.truth(self.ev(s.test))
        self.if_node(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def if_node(self, c, ft, ff):
        m = self.m
        pc0 = self.pc
        p1 = m.and_(pc0, c)
        if p1 == pc0:
            return ft()
        if p1 == 0:
            return ff()
        live = 0
        self.pc = p1
        try:
            ft()
            live = self.pc
        except DeadPath:
            pass
        self.pc = m.and_(pc0, m.not_(c))
        try:
            ff()
            live = m.or_(live, self.pc)
        except DeadPath:
            pass
        self.pc = live
        if live == 0:
            raise DeadPath()

    def st_while(self, s):
        m = self.m
        lp = Loop(self.frames[-1])
        self.loops.append(lp)
        exit_ = 0
        n = 0
        try:
            while True:
                try:
                    c = self.truth(self.ev(s.test))
                except DeadPath:
                    break
                stay = m.and_(self.pc, c)
                exit_ = m.or_(exit_, m.and_(self.pc, m.not_(c)))
                if stay == 0:
                    break
                n += 1
                if n > self.LOOP_CAP:
                    raise Unsupported('loop bound')
                self.pc = stay
                lp.cont = 0
                try:
                    self.block(s.body)
                    live = self.pc
                except DeadPath:
                    live = 0
                self.pc = m.or_(live, lp.cont)
                if self.pc == 0:
                    break
        finally:
            self.loops.pop()
        self.pc = exit_
        self.loop_end(lp, s.orelse)

    def loop_end(self, lp, orelse):
        if orelse and self.pc:
            try:
                self.block(orelse)
            except DeadPath:
                self.pc = 0
        self.pc = self.m.or_(self.pc, lp.brk)
        if self.pc == 0:
            raise DeadPath()

    def st_for(self, s):
        m = self.m
        it = self.ev(s.iter)
        lp = Loop(self.frames[-1])
        self.loops.append(lp)
        exit_ = 0
        n = 0
        try:
            try:
                for g in self.iterate(it):
                    n += 1
                    if n > max(5000, self.LOOP_CAP):
                        raise Unsupported('loop bound')
                    guard, v = g
                    pc0 = self.pc
                    p = m.and_(pc0, guard)
                    if p == 0:
                        continue
                    self.pc = p
                    lp.cont = 0
                    try:
                        self.assign(s.target, self.read(v)[0])
                        self.block(s.body)
                        live = self.pc
                    except DeadPath:
                        live = 0
                    self.pc = m.or_(m.or_(live, lp.cont), m.and_(pc0, m.not_(guard)))
                    if self.pc == 0:
                        break
            except DeadPath:
                self.pc = 0
            exit_ = self.pc
        finally:
            self.loops.pop()
        self.pc = exit_
        self.loop_end(lp, s.orelse)

    def st_break(self, s):
        lp = self.loops[-1]
        lp.brk = self.m.or_(lp.brk, self.pc)
        self.pc = 0
        raise DeadPath()

    def st_continue(self, s):
        lp = self.loops[-1]
        lp.cont = self.m.or_(lp.cont, self.pc)
        self.pc = 0
        raise DeadPath()

    def st_return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        fr = self.frames[-1]
        fr.rets.append((self.pc, v))
        fr.returned = self.m.or_(fr.returned, self.pc)
        self.pc = 0
        raise DeadPath()

    def st_raise(self, s):
        if s.exc is None:
            if not self.cur_exc:
                self.err_always('RuntimeError', 'No active exception')
            e = self.cur_exc[-1]
        else:
            e = self.ev(s.exc)
        cause = ABSENT
        if s.cause is not None:
            cause = self.ev(s.cause)

        def f(x):
            if isinstance(x, PClass) and x.is_exc:
                x = self.call(x, [], {})
            if not (isinstance(x, Obj) and x.cls.is_exc):
                self.err_always('TypeError', 'exceptions must derive from BaseException')
            if cause is not ABSENT:
                self.write(x.d, '__cause__', cause, x.birth)
            self.raise_obj(x)
        self.split(self.alts(e), f)
        raise DeadPath()

    def exc_matches(self, exc, t):
        if type(t) is tuple:
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, PClass):
            return t in exc.cls.mro
        raise Unsupported('except type')

    def expects_undefined(self, t):
        if type(t) is tuple:
            return any(self.expects_undefined(x) for x in t)
        return isinstance(t, PClass) and t.name in UNDEFINED

    def st_try(self, s):
        m = self.m
        pc0 = self.pc
        ctx = []
        self.hs.append(ctx)
        live = 0
        try:
            try:
                self.block(s.body)
                live = self.pc
            except DeadPath:
                live = 0
        finally:
            self.hs.pop()
        fin_ctx = []
        if s.finalbody:
            self.hs.append(fin_ctx)
        try:
            if s.orelse and live:
                self.pc = live
                try:
                    self.block(s.orelse)
                    live = self.pc
                except DeadPath:
                    live = 0
            pend = ctx
            for h in s.handlers:
                if not pend:
                    break
                if h.type is None:
                    t = None
                else:
                    self.pc = m.any_([g for g, _ in pend])
                    t = self.ev(h.type)
                hit = [(g, e) for g, e in pend if t is None or self.exc_matches(e, t)]
                pend = [(g, e) for g, e in pend if not (t is None or self.exc_matches(e, t))]
                if not hit:
                    continue
                for x, e in hit:
                    if t is not None and self.expects_undefined(t):
                        e.expected = True
                g = m.any_([x for x, _ in hit])
                self.pc = g
                exc = self.merge_list(hit)
                self.cur_exc.append(exc)
                try:
                    if h.name:
                        self.store_name(h.name, exc)
                    self.block(h.body)
                    live = m.or_(live, self.pc)
                except DeadPath:
                    pass
                finally:
                    self.cur_exc.pop()
            for g, e in pend:
                if not self.hs:
                    raise Unsupported('exception outside of a unit')
                self.hs[-1].append((g, e))
        finally:
            if s.finalbody:
                self.hs.pop()
        if s.finalbody:
            self.pc = pc0
            try:
                self.block(s.finalbody)
                alive = self.pc
            except DeadPath:
                alive = 0
            for g, e in fin_ctx:
                g = m.and_(g, alive)
                if g:
                    if not self.hs:
                        raise Unsupported('exception outside of a unit')
                    self.hs[-1].append((g, e))
            live = m.and_(live, alive)
        self.pc = live
        if live == 0:
            raise DeadPath()

    def st_with(self, s, i=0):
        if i == len(s.items):
            self.block(s.body)
            return
        item = s.items[i]

        def enter(cm):
            if type(cm) is GenCM:
                self.with_gen(cm, item, s, i)
            else:
                self.with_obj(cm, item, s, i)
        cm = self.ev(item.context_expr)
        self.split(cm.alts if type(cm) is Choice else [(1, cm)], enter)

    def with_obj(self, cm, item, s, i):
        m = self.m
        leave = self.getattr(cm, '__exit__')
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v)
        pc0 = self.pc
        ctx = []
        self.hs.append(ctx)
        try:
            try:
                self.st_with(s, i + 1)
                live = self.pc
            except DeadPath:
                live = 0
        finally:
            self.hs.pop()
        failed = m.any_([g for g, _ in ctx])
        self.pc = m.and_(pc0, m.not_(failed))
        if self.pc:
            # also on return, break and continue
            try:
                self.call(leave, [None, None, None], {})
                live = m.and_(live, self.pc)
            except DeadPath:
                live = 0
        for g, e in ctx:
            self.pc = g
            try:
                r = self.call(leave, [e.cls, e, None], {})
                t = self.truth(r)
                left = self.pc
            except DeadPath:
                continue
            live = m.or_(live, m.and_(left, t))
            self.pc = m.and_(left, m.not_(t))
            if self.pc:
                self.raise_obj_quiet(e)
        self.pc = live
        if live == 0:
            raise DeadPath()

    def raise_obj_quiet(self, e):
        if not self.hs:
            raise Unsupported('exception outside of a unit')
        self.hs[-1].append((self.pc, e))

    def with_gen(self, cm, item, s, i):
        """A context manager written as a generator: the body runs where it yields."""
        m = self.m
        outer = self.frames[-1]
        loops = self.loops
        state = {'gone': 0, 'seen': 0}

        def body(v):
            at = self.pc
            if m.and_(state['seen'], at):
                self.err_always('RuntimeError', "generator didn't stop")
            state['seen'] = m.or_(state['seen'], at)
            depth = len(self.hs)
            before = [len(h) for h in self.hs]
            self.frames.append(outer)
            inner, self.loops = self.loops, loops
            try:
                try:
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, v)
                    self.st_with(s, i + 1)
                    live = self.pc
                except DeadPath:
                    live = 0
            finally:
                self.frames.pop()
                self.loops = inner
            new = [g for h, n in zip(self.hs[:depth], before) for g, _ in h[n:]]
            gone = m.and_(at, m.not_(m.or_(live, m.any_(new))))
            state['gone'] = m.or_(state['gone'], gone)
            self.pc = m.or_(live, gone)
            if self.pc == 0:
                raise DeadPath()
            return None
        end = self.call_func(cm.func, cm.args, cm.kw, hook=body)
        if m.and_(self.pc, m.not_(state['seen'])):
            self.err('RuntimeError', "generator didn't yield", m.not_(state['seen']))
        self.pc = m.and_(self.pc, m.not_(state['gone']))
        if self.pc == 0:
            raise DeadPath()

    def st_funcdef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed([self.ev(x) for x in s.decorator_list]):
            v = self.call(d, [v], {})
        self.store_name(s.name, v)

    def make_func(self, node, name):
        env = self.frames[-1].env
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwdefaults = [(None if d is None else self.ev(d)) for d in a.kw_defaults]
        kwhas = [d is not None for d in a.kw_defaults]
        info = self.info(node)
        qual = name
        fr = self.frames[-1]
        if fr.cls:
            qual = fr.cls + '.' + name
        elif fr.func is not None:
            qual = fr.func.qual + '.' + name
        f = PFunc(node, name, env, env.module, defaults, list(zip(kwdefaults, kwhas)), info, qual)
        return f

    def info(self, node):
        i = self.infos.get(node)
        if i is None:
            i = self.infos[node] = FuncInfo(node)
        return i

    def st_classdef(self, s):
        bases = [self.ev(b) for b in s.bases]
        ckw = {}
        for k in s.keywords:
            mc = self.ev(k.value)
            if k.arg == 'metaclass':
                if not ((isinstance(mc, PClass) and mc.name in ('ABCMeta', 'type', 'EnumMeta')) or mc is self.builtins['type']):
                    raise Unsupported('metaclass')
            elif k.arg is None:
                raise Unsupported('class keywords')
            else:
                ckw[k.arg] = mc
        fr0 = self.frames[-1]
        env = Env(fr0.env, self.pc, None, 'class', fr0.env.module)
        fr = Frame(env, fr0.func)
        fr.cls = s.name
        fr.line = s.lineno
        self.frames.append(fr)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        pb = []
        for b in bases:
            if isinstance(b, NativeType):
                b = self.nat.class_of_type(self, b)
            if not isinstance(b, PClass):
                raise Unsupported('base class')
            pb.append(b)
        cls = PClass(s.name, pb or [self.builtins['object']], env.vars, fr0.env.module)
        cls.node = s
        if any(getattr(b, 'typed_tuple', False) for b in pb):
            more.typed_tuple(self, cls)
        for v in env.vars.values():
            if isinstance(v, PFunc) and v.cls is None:
                v.cls = cls
            elif isinstance(v, PProperty):
                for q in (v.fget, v.fset):
                    if isinstance(q, PFunc):
                        q.cls = cls
            elif isinstance(v, (PStatic, PClassMethod)) and isinstance(v.f, PFunc):
                v.f.cls = cls
        if cls.enum:
            self.nat.finish_enum(self, cls)
        for nm, x in list(cls.ns.items()):
            if type(x) is Obj:
                f = x.cls.find('__set_name__')
                if f is not ABSENT:
                    self.call(self.bind(f, x), [cls, nm], {})
        for c in cls.mro[1:]:
            if '__init_subclass__' in c.ns:
                f = c.ns['__init_subclass__']
                self.call(f.f if isinstance(f, (PClassMethod, PStatic)) else f, [cls], ckw)
                break
        else:
            if ckw:
                self.err_always('TypeError', '%s.__init_subclass__() takes no keyword arguments' % cls.name)
        v = cls
        for d in reversed([self.ev(x) for x in s.decorator_list]):
            v = self.call(d, [v], {})
        self.store_name(s.name, v)

    def st_import(self, s):
        for al in s.names:
            mod = self.import_dotted(al.name)
            if al.asname:
                self.store_name(al.asname, mod)
            else:
                self.store_name(al.name.split('.')[0], self.modules[al.name.split('.')[0]])

    def st_importfrom(self, s):
        cur = self.frames[-1].env.module
        name = self.resolve_import(cur, s.level, s.module)
        if name == '__future__':
            return
        mod = self.import_dotted(name)
        for al in s.names:
            if al.name == '*':
                names = mod.ns.get('__all__')
                if names is not None:
                    names = self.sequence(names)
                else:
                    names = [k for k in mod.ns if not k.startswith('_')]
                for k in names:
                    self.store_name(k, mod.ns[k])
                continue
            v = mod.ns.get(al.name, ABSENT)
            if v is ABSENT:
                full = name + '.' + al.name
                if self.loader(full) is not None:
                    v = self.load_module(full)
                else:
                    v = self.nat.module_attr(self, mod, al.name)
                    if v is ABSENT:
                        self.err_always('ImportError', 'cannot import name %s' % al.name)
            self.store_name(al.asname or al.name, v)

    def st_global(self, s):
        pass

    def st_assert(self, s):
        c = self.truth(self.ev(s.test))
        if c != 1:
            bad = self.m.not_(c)
            pc0 = self.pc
            g = self.m.and_(pc0, bad)
            if g:
                args = ()
                if s.msg is not None:
                    self.pc = g
                    try:
                        args = (self.ev(s.msg),)
                        g = self.pc
                    except DeadPath:
                        g = 0
                    self.pc = pc0
                if g:
                    exc = self.make_exc('AssertionError')
                    exc.d['args'] = args
                    self.raise_obj(exc, g)
                if g != self.m.and_(pc0, bad):
                    self.pc = self.m.and_(pc0, self.m.not_(bad))
                    if self.pc == 0:
                        raise DeadPath()

    # ---- names -------------------------------------------------------------------
    def store_name(self, name, v):
        fr = self.frames[-1]
        env = fr.env
        info = env.info
        if info is not None:
            if name in info.globals:
                self.write(env.module.ns, name, v, 1)
                return
            if name in info.nonlocals:
                e = env.parent
                while e is not None:
                    if e.kind == 'func' and name in e.info.locals:
                        self.write(e.vars, name, v, e.birth)
                        return
                    e = e.parent
                raise Unsupported('nonlocal')
            birth = self.m.and_(env.birth, self.m.not_(fr.returned)) if fr.returned else env.birth
        else:
            birth = env.birth
        if info is not None and name not in info.locals:
            # walrus inside a comprehension binds in the enclosing function
            e = env
            while e is not None and e.kind == 'func' and name not in e.info.locals:
                e = e.parent
            if e is not None:
                self.write(e.vars, name, v, e.birth)
                return
        self.write(env.vars, name, v, birth)

    def load_name(self, name):
        env = self.frames[-1].env
        e = env
        first = True
        while e is not None:
            if e.kind == 'module':
                break
            if e.kind == 'class' and not first:
                e = e.parent
                continue
            if e.info is not None and name in e.info.globals:
                break
            if name in e.vars or (e.info is not None and name in e.info.locals):
                raw = e.vars.get(name, ABSENT)
                v, miss = self.read(raw)
                if miss:
                    if e.kind == 'class':
                        if v is ABSENT:
                            e = e.parent
                            first = False
                            continue
                        raise Unsupported('class scope name')
                    if v is ABSENT:
                        self.err_always('UnboundLocalError' if e is env else 'NameError', name)
                    self.err('UnboundLocalError', name, miss)
                return v
            e = e.parent
            first = False
        ns = env.module.ns
        raw = ns.get(name, ABSENT)
        if raw is not ABSENT:
            v, miss = self.read(raw)
            if miss:
                if v is ABSENT:
                    self.err_always('NameError', name)
                self.err('NameError', name, miss)
            return v
        v = self.builtins.get(name, ABSENT)
        if v is ABSENT and name == 'memoryview':
            v = self.builtins[name] = self.nat.native_module(self, '_memoryview').ns[name]
        if v is ABSENT:
            if hasattr(_builtins, name):
                raise Unsupported('builtin %s' % name)
            self.err_always('NameError', "name '%s' is not defined" % name)
        return v

    # ---- expressions ---------------------------------------------------------------
    def ev(self, n):
        return EXPR[type(n)](self, n) if type(n) in EXPR else self.ev_unknown(n)

    def ev_unknown(self, n):
        raise Unsupported('expression %s' % type(n).__name__)

    def ev_constant(self, n):
        return n.value

    def ev_name(self, n):
        return self.load_name(n.id)

    def ev_tuple(self, n):
        return tuple(self.elements(n.elts))

    def ev_list(self, n):
        return PList(self.elements(n.elts), self.pc)

    def ev_set(self, n):
        s = PSet([], self.pc)
        for x in self.elements(n.elts):
            self.nat.set_add(self, s, x)
        return s

    def elements(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.sequence(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def ev_dict(self, n):
        d = PDict(self.pc)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.nat.dict_update(self, d, self.ev(v))
            else:
                kk = self.ev(k)
                self.setitem(d, kk, self.ev(v))
        return d

    def ev_attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def ev_subscript(self, n):
        o = self.ev(n.value)
        return self.getitem(o, self.ev(n.slice))

    def ev_index(self, n):
        return self.ev(n.value)

    def ev_slice(self, n):
        return PSlice(self.ev(n.lower) if n.lower is not None else None,
                      self.ev(n.upper) if n.upper is not None else None,
                      self.ev(n.step) if n.step is not None else None)

    def ev_binop(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(BINOPS[type(n.op)], a, b)

    def ev_unaryop(self, n):
        v = self.ev(n.operand)
        return self.unary(type(n.op).__name__, v)

    def unary(self, op, v):
        if op == 'Not':
            return self.N.mkb(self.m.not_(self.truth(v)))
        if type(v) is Choice:
            return self.split(v.alts, lambda a: self.unary(op, a))
        if isint(v):
            v = self.N.b2i(v)
            if op == 'USub':
                return self.N.neg(v)
            if op == 'UAdd':
                return v
            return self.N.sub(-1, v)
        if type(v) is float:
            return -v if op == 'USub' else v
        if isinstance(v, Obj):
            r = self.call_method(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op], [])
            if r is not ABSENT:
                return r
        self.err_always('TypeError', 'bad operand type for unary %s' % op)

    def ev_boolop(self, n):
        return self.boolop(n.values, isinstance(n.op, ast.And))

    def boolop(self, vals, is_and):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        t = self.truth(v)
        g = t if is_and else self.m.not_(t)     # evaluate the rest where g
        m = self.m
        if m.and_(self.pc, g) == self.pc:
            return self.boolop(vals[1:], is_and)
        if m.and_(self.pc, g) == 0:
            return v
        return self.branch(g, lambda: self.boolop(vals[1:], is_and), lambda: self.read(v)[0])

    def ev_ifexp(self, n):
        c = self.truth(self.ev(n.test))
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def ev_compare(self, n):
        left = self.ev(n.left)
        ops, comps = n.ops, n.comparators
        right = self.ev(comps[0])
        r = self.compare(type(ops[0]).__name__, left, right)
        if len(ops) == 1:
            return r
        return self._chain(r, right, ops[1:], comps[1:])

    def _chain(self, r, left, ops, comps):
        t = self.truth(r)

        def rest():
            right = self.ev(comps[0])
            x = self.compare(type(ops[0]).__name__, left, right)
            if len(ops) == 1:
                return x
            return self._chain(x, right, ops[1:], comps[1:])
        return self.branch(t, rest, lambda: r)

    def ev_lambda(self, n):
        return self.make_func(n, '<lambda>')

    def ev_namedexpr(self, n):
        v = self.ev(n.value)
        self.store_name(n.target.id, v)
        return v

    def ev_joinedstr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec)
                if v.conversion == 114:
                    x = self.nat.py_repr(self, x)
                elif v.conversion == 115:
                    x = self.nat.py_str(self, x)
                parts.append(self.nat.format_value(self, x, spec))
        return self.nat.concat(self, parts)

    def ev_starred(self, n):
        raise Unsupported('starred')

    def ev_yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        fr = self.frames[-1]
        if fr.hook is not None:
            return fr.hook(v)
        fr.yields.append((self.pc, v))
        if self.on_yield is not None:
            self.on_yield(fr.func, v)
        if len(fr.yields) > max(3000, self.LOOP_CAP):
            raise Unsupported('generator bound')
        return None

    def ev_yieldfrom(self, n):
        it = self.ev(n.value)
        fr = self.frames[-1]
        pcs = self.pc
        for g, v in self.iterate(it):
            p = self.m.and_(self.pc, g)
            if p:
                if fr.hook is not None:
                    raise Unsupported('context manager delegating to a generator')
                fr.yields.append((p, v))
        return it.ret if type(it) is PIter else None

    # comprehensions
    def comp(self, n, emit):
        env0 = self.frames[-1].env
        first = self.ev(n.generators[0].iter)
        env = Env(env0, self.pc, self.info(n), 'func', env0.module)
        fr0 = self.frames[-1]
        fr = Frame(env, fr0.func)
        fr.line = fr0.line
        fr.cls = None
        self.frames.append(fr)
        m = self.m
        try:
            def level(i, it):
                gen = n.generators[i]
                for g, v in self.iterate(it):
                    pc0 = self.pc
                    p = m.and_(pc0, g)
                    if p == 0:
                        continue
                    out = m.and_(pc0, m.not_(g))
                    self.pc = p
                    try:
                        self.assign(gen.target, self.read(v)[0])
                        skipped = 0
                        for c in gen.ifs:
                            t = self.truth(self.ev(c))
                            skipped = m.or_(skipped, m.and_(self.pc, m.not_(t)))
                            self.pc = m.and_(self.pc, t)
                            if self.pc == 0:
                                break
                        if self.pc:
                            if i + 1 < len(n.generators):
                                level(i + 1, self.ev(n.generators[i + 1].iter))
                            else:
                                emit()
                        live = m.or_(self.pc, skipped)
                    except DeadPath:
                        live = skipped if 'skipped' in dir() else 0
                    self.pc = m.or_(live, out)
                    if self.pc == 0:
                        raise DeadPath()
            level(0, first)
        finally:
            self.frames.pop()

    def ev_listcomp(self, n):
        return self.list_from(self._collect(n))

    def _collect(self, n):
        out = []
        self.comp(n, lambda: out.append((self.pc, self.ev(n.elt))))
        return out

    def list_from(self, items):
        """PList from guarded items."""
        l = PList([], self.pc)
        if all(self.m.implies(self.pc, g) for g, _ in items):
            l.d['data'] = tuple(v for _, v in items)
            return l
        pc0 = self.pc
        for g, v in items:
            self.pc = self.m.and_(pc0, g)
            if self.pc:
                self.nat.list_append(self, l, v)
        self.pc = pc0
        return l

    def ev_setcomp(self, n):
        s = PSet([], self.pc)
        pc0 = self.pc
        for g, v in self._collect(n):
            if not self.m.implies(self.pc, g):
                raise Unsupported('conditional set element')
            self.nat.set_add(self, s, v)
        return s

    def ev_genexp(self, n):
        return PIter(self._collect(n), isgen=True)

    def ev_dictcomp(self, n):
        d = PDict(self.pc)

        def emit():
            k = self.ev(n.key)
            self.setitem(d, k, self.ev(n.value))
        self.comp(n, emit)
        return d

    # ---- calls ---------------------------------------------------------------------
    def ev_call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in self.frames[-1].env.vars:
            return self.make_super(n)
        fn = self.ev(f)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.sequence(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                self.nat.kw_update(self, kw, self.ev(k.value))
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(fn, args, kw)

    def make_super(self, n):
        fr = self.frames[-1]
        if n.args:
            cls = self.ev(n.args[0])
            obj = self.ev(n.args[1])
        else:
            i = len(self.frames) - 1
            while i >= 0 and (self.frames[i].func is None or self.frames[i].func.cls is None):
                i -= 1
            fr = self.frames[i]
            cls = fr.func.cls
            obj = fr.selfarg
        return PSuper(cls, obj)

    def call(self, fn, args, kw):
        t = type(fn)
        if t is Choice:
            return self.split(fn.alts, lambda f: self.call(f, args, kw))
        if t is PFunc:
            return self.call_func(fn, args, kw)
        if t is PBound:
            if type(fn.func) is PFunc:
                return self.call_func(fn.func, [fn.self] + list(args), kw)
            return self.call(fn.func, [fn.self] + list(args), kw)
        if t is Native:
            return fn.fn(self, args, kw)
        if t is PClass:
            return self.instantiate(fn, args, kw)
        if t is NativeType:
            if fn.fn is None:
                raise Unsupported('call of type %s' % fn.name)
            return fn.fn(self, args, kw)
        if isinstance(fn, Obj):
            r = self.call_method(fn, '__call__', args, kw)
            if r is not ABSENT:
                return r
        if isinstance(fn, more.Cached):
            return fn(self, args, kw)
        if isinstance(fn, more.CMFactory):
            if isinstance(fn.func, PFunc) and fn.func.info.is_gen:
                return GenCM(fn.func, args, kw)
            raise Unsupported('context manager function')
        if fn is None or isint(fn) or t in (str, AStr, tuple, PList, PDict, Obj) or fn is NotImplemented:
            self.err_always('TypeError', 'object is not callable')
        raise Unsupported('call of %r' % (fn,))

    def instantiate(self, cls, args, kw):
        if cls.enum:
            return self.nat.enum_lookup(self, cls, args)
        if cls.native_base is not None and cls.native_base not in ('object',):
            raise Unsupported('instance of builtin subclass %s' % cls.name)
        new = cls.find('__new__')
        if new is not ABSENT:
            o = self.call(new.f if isinstance(new, PStatic) else new, [cls] + list(args), kw)
            alts = o.alts if type(o) is Choice else [(1, o)]
            return self.split(alts, lambda x: self.init_obj(cls, x, args, kw) if type(x) is Obj and cls in x.cls.mro else x)
        if any(getattr(c, 'abstract', None) for c in cls.mro):
            more.check_abstract(self, cls)
        o = Obj(cls, self.pc)
        if cls.fields is not None:
            self.nat.namedtuple_init(self, o, args, kw)
            if not isinstance(cls.find('__init__'), PFunc):
                return o
        return self.init_obj(cls, o, args, kw)

    def init_obj(self, cls, o, args, kw):
        init = o.cls.find('__init__')
        if isinstance(init, PFunc):
            self.call_func(init, [o] + list(args), kw)
        elif init is not ABSENT and (o.cls.fields is None):
            if cls.find('__new__') is ABSENT or o.cls.is_exc:
                self.call(init, [o] + list(args), kw)
        return o

    def raw_new(self, args, kw):
        """object.__new__(cls, ...)"""
        cls = args[0]
        if type(cls) is Choice:
            return self.split(cls.alts, lambda c: self.raw_new([c] + list(args[1:]), kw))
        if not isinstance(cls, PClass):
            raise Unsupported('__new__ of %s' % self.nat.type_name(cls))
        if cls.native_base is not None and cls.native_base not in ('object',):
            raise Unsupported('instance of builtin subclass %s' % cls.name)
        if any(getattr(c, 'abstract', None) for c in cls.mro):
            self.nat.check_abstract(self, cls)
        o = Obj(cls, self.pc)
        if cls.fields is not None:
            self.nat.namedtuple_init(self, o, args[1:], kw)
        elif cls.is_exc:
            o.d['args'] = tuple(args[1:])
        elif (len(args) > 1 or kw) and isinstance(cls.find('__new__'), PFunc):
            self.err_always('TypeError', 'object.__new__() takes exactly one argument (the type to instantiate)')
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        vars_ = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg:
                vars_[a.vararg.arg] = tuple(args[len(names):])
                args = args[:len(names)]
            else:
                self.err_always('TypeError', '%s() takes %d positional arguments but %d were given' % (
                    f.name, len(names), len(args)))
        elif a.vararg:
            vars_[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars_[n] = v
        kw = dict(kw)
        for n in names:
            if n in kw:
                if n in vars_:
                    self.err_always('TypeError', '%s() got multiple values for argument %s' % (f.name, n))
                vars_[n] = kw.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vars_:
                j = i - (len(names) - nd)
                if j >= 0:
                    vars_[n] = f.defaults[j]
                else:
                    self.err_always('TypeError', "%s() missing required argument '%s'" % (f.name, n))
        for x, (d, has) in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif has:
                vars_[x.arg] = d
            else:
                self.err_always('TypeError', "%s() missing keyword argument '%s'" % (f.name, x.arg))
        if a.kwarg:
            d = PDict(self.pc)
            for k, v in kw.items():
                d.k[('s', k)] = k
                d.d[('s', k)] = v
            vars_[a.kwarg.arg] = d
        elif kw:
            self.err_always('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, sorted(kw)[0]))
        return vars_, (names[0] if names else None)

    def call_func(self, f, args, kw, hook=None):
        if len(self.frames) > MAXDEPTH:
            raise Unsupported('recursion depth')
        vars_, first = self.bind_args(f, args, kw)
        env = Env(f.env if f.env.kind != 'module' else None, self.pc, f.info, 'func', f.module)
        if env.parent is None and f.env.kind == 'class':
            env.parent = None
        env.vars = vars_
        fr = Frame(env, f)
        fr.selfarg = vars_.get(first) if first else None
        fr.line = f.node.lineno
        self.touched[f] = True
        if f.info.is_gen and hook is None:
            return self.run_gen(f, fr)
        fr.hook = hook
        loops, self.loops = self.loops, []
        self.frames.append(fr)
        m = self.m
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            try:
                self.block(f.node.body)
                fr.rets.append((self.pc, None))
            except DeadPath:
                pass
        finally:
            self.frames.pop()
            self.loops = loops
        if not fr.rets:
            self.pc = 0
            raise DeadPath()
        if len(fr.rets) == 1:
            self.pc, v = fr.rets[0]
            return v
        self.pc = m.any_([g for g, _ in fr.rets])
        return self.merge_list(fr.rets)

    def run_gen(self, f, fr):
        """Generators are run eagerly; what they raise is delivered after their items."""
        pc0 = self.pc
        fr.yields = []
        ctx = []
        self.hs.append(ctx)
        loops, self.loops = self.loops, []
        self.frames.append(fr)
        try:
            try:
                self.block(f.node.body)
            except DeadPath:
                pass
        finally:
            self.frames.pop()
            self.loops = loops
            self.hs.pop()
        ret = None
        if fr.rets:
            ret = self.merge_list(fr.rets) if len(fr.rets) > 1 else fr.rets[0][1]
        self.pc = pc0
        it = PIter(fr.yields, ctx, isgen=True)
        it.ret = ret
        return it

    def call_method(self, o, name, args, kw=None):
        """Call a special method looked up on the class; ABSENT when there is none."""
        f = o.cls.find(name)
        if f is ABSENT or f is None:
            return ABSENT
        if isinstance(f, PFunc):
            return self.call_func(f, [o] + list(args), kw or {})
        return self.call(self.bind(f, o), args, kw or {})

    def bind(self, f, o):
        if isinstance(f, (PFunc, Native, more.Cached, more.CMFactory)):
            return PBound(f, o)
        if isinstance(f, PStatic):
            return f.f
        if isinstance(f, PClassMethod):
            return PBound(f.f, o.cls)
        if type(f) is Obj and f.cls.find('__get__') is not ABSENT:
            return self.call_method(f, '__get__', [o, o.cls])
        return f

    # ---- attributes -----------------------------------------------------------------
    def getattr(self, o, name, default=ABSENT):
        t = type(o)
        if t is Obj:
            cls = o.cls
            c = cls.find(name)
            if type(c) is PProperty:
                if c.fget is None:
                    self.err_always('AttributeError', name)
                return self.call(c.fget, [o], {})
            if type(c) is Obj and c.cls.find('__set__') is not ABSENT:
                return self.bind(c, o)
            if isinstance(cls.find('__getattribute__'), PFunc):
                raise Unsupported('__getattribute__')
            raw = o.d.get(name, ABSENT)
            if raw is not ABSENT:
                v, miss = self.read(raw)
                if not miss:
                    return v
                # partly missing
                alts = [] if v is ABSENT else [(self.m.not_(miss), lambda: v)]
                return self.split(alts + [(miss, lambda: self.class_attr(o, c, name, default))], lambda f: f())
            return self.class_attr(o, c, name, default)
        if t is Choice:
            return self.split(o.alts, lambda a: self.getattr(a, name, default))
        if isinstance(o, PModule):
            raw = o.ns.get(name, ABSENT)
            if raw is ABSENT:
                raw = self.nat.module_attr(self, o, name)
            if raw is ABSENT:
                if default is not ABSENT:
                    return default
                self.err_always('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
            return self.read(raw)[0]
        if t is PClass:
            if name == '__name__':
                return o.name
            c = o.find(name)
            if c is ABSENT:
                c = self.nat.class_extra(self, o, name)
            if c is ABSENT and (hasattr(type, name) or hasattr(object, name)):
                raise Unsupported('attribute %s of a class' % name)
            if c is ABSENT:
                if default is not ABSENT:
                    return default
                self.err_always('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))
            if isinstance(c, PStatic):
                return c.f
            if isinstance(c, PClassMethod):
                return PBound(c.f, o)
            if type(c) is Obj and not c.cls.enum and c.cls.find('__get__') is not ABSENT:
                return self.call_method(c, '__get__', [None, o])
            return c
        if t is PSuper:
            obj = o.obj
            mro = obj.cls.mro if isinstance(obj, Obj) else obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    f = c.ns[name]
                    if isinstance(f, PProperty):
                        return self.call(f.fget, [obj], {})
                    if isinstance(f, PClassMethod):
                        return PBound(f.f, obj.cls if isinstance(obj, Obj) else obj)
                    if isinstance(f, PStatic):
                        return f.f
                    if name == '__init_subclass__':
                        return PBound(f, obj)
                    return self.bind(f, obj) if isinstance(obj, Obj) and name != '__new__' else f
            if name == '__new__':
                return Native('__new__', lambda i, a, k: i.raw_new(a, k))
            if name in ('__init_subclass__', '__init__'):
                return Native(name, lambda i, a, k: None)
            if hasattr(Exception, name) or hasattr(type, name):
                raise Unsupported('super().%s' % name)
            self.err_always('AttributeError', name)
        if isinstance(o, NativeObj):
            v = o.pget(self, name)
            if v is ABSENT:
                if default is not ABSENT:
                    return default
                self.err_always('AttributeError', name)
            return v
        v = self.nat.native_attr(self, o, name)
        if v is ABSENT:
            self.nat.check_unmodelled(o, name)
            if default is not ABSENT:
                return default
            self.err_always('AttributeError', "'%s' object has no attribute '%s'" % (self.nat.type_name(o), name))
        return v

    def class_attr(self, o, c, name, default):
        if c is ABSENT:
            c = self.nat.instance_extra(self, o, name)
        if c is ABSENT:
            ga = o.cls.find('__getattr__')
            if ga is not ABSENT:
                return self.call(self.bind(ga, o), [name], {})
            if hasattr(Exception if o.cls.is_exc else object, name):
                raise Unsupported('attribute %s of an object' % name)
            if default is not ABSENT:
                return default
            self.err_always('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        return self.bind(c, o) if isinstance(c, (PFunc, PStatic, PClassMethod, more.Cached, more.CMFactory, Obj)) else (
            PBound(c, o) if isinstance(c, Native) else c)

    def hasattr_node(self, o, name):
        """Node: does o have the attribute?"""
        if type(o) is Choice:
            m = self.m
            r = 0
            for g, a in o.alts:
                p = m.and_(self.pc, g)
                if p:
                    pc0 = self.pc
                    self.pc = p
                    r = m.or_(r, m.and_(g, self.hasattr_node(a, name)))
                    self.pc = pc0
            return r
        if type(o) is Obj:
            if o.cls.find(name) is not ABSENT:
                return 1
            raw = o.d.get(name, ABSENT)
            if raw is ABSENT:
                return 1 if self.nat.instance_extra(self, o, name) is not ABSENT or name in OBJECT_ATTRS else 0
            if type(raw) is Choice:
                return self.m.any_([g for g, _ in raw.alts])
            return 1
        if type(o) is PModule:
            return 1 if name in o.ns else 0
        if isinstance(o, PClass):
            return 1 if o.find(name) is not ABSENT or name in CLASS_ATTRS else 0
        if isinstance(o, NativeObj):
            return 1 if o.pget(self, name) is not ABSENT else 0
        if self.nat.native_attr(self, o, name) is not ABSENT:
            return 1
        try:
            self.nat.check_unmodelled(o, name)
        except Unsupported:
            if type(o) in (Native, NativeType, PIter):
                raise
            return 1            # it exists, only its value is not represented
        return 0

    def setattr(self, o, name, v):
        t = type(o)
        if t is Choice:
            self.split(o.alts, lambda a: self.setattr(a, name, v))
            return
        if t is Obj:
            c = o.cls.find(name)
            if type(c) is PProperty:
                if c.fset is None:
                    self.err_always('AttributeError', "can't set attribute %s" % name)
                self.call(c.fset, [o, v], {})
                return
            if o.cls.fields is not None and name in o.cls.fields:
                self.err_always('AttributeError', "can't set attribute")
            if type(c) is Obj and c.cls.find('__set__') is not ABSENT:
                self.call_method(c, '__set__', [o, v])
                return
            sa = o.cls.find('__setattr__')
            if isinstance(sa, PFunc):
                self.call_func(sa, [o, name, v], {})
                return
            if '__slots__' in o.cls.ns:
                more.check_slots(self, o, name)
            self.write(o.d, name, v, o.birth)
            return
        if isinstance(o, PModule):
            self.write(o.ns, name, v, 1)
            return
        if t is PClass:
            self.write(o.ns, name, v, 1)
            return
        if t is PFunc:
            o.attrs[name] = v
            return
        self.err_always('AttributeError', "'%s' object has no attribute '%s'" % (self.nat.type_name(o), name))

    # ---- items -----------------------------------------------------------------------
    def getitem(self, o, k):
        return self.nat.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.nat.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.nat.delitem(self, o, k)

    def iterate(self, v):
        """Python generator of (guard, value); may set self.pc via tail exceptions at the end."""
        return self.nat.iterate(self, v)

    def sequence(self, v):
        """Items of an iterable whose length is definite."""
        out = []
        for g, x in self.iterate(v):
            if not self.m.implies(self.pc, g):
                raise Unsupported('indefinite sequence length')
            out.append(x)
        return out

    # ---- truth ------------------------------------------------------------------------
    def truth(self, v):
        t = type(v)
        if t is bool:
            return 1 if v else 0
        if t is SB:
            return v.n
        if v is None:
            return 0
        if t is int or t is float or t is str or t is bytes or t is tuple:
            return 1 if v else 0
        if t is SI:
            return self.m.not_(self.N.eq(v, 0))
        if t is Choice:
            m = self.m
            pc0 = self.pc
            r = 0
            live = 0
            for g, a in v.alts:
                p = m.and_(pc0, g)
                if p == 0:
                    continue
                self.pc = p
                try:
                    n = self.truth(a)
                except DeadPath:
                    continue
                live = m.or_(live, self.pc)
                r = m.or_(r, m.and_(g, n))
            self.pc = live
            if live == 0:
                raise DeadPath()
            return r
        if t is Obj:
            r = self.call_method(v, '__bool__', [])
            if r is not ABSENT:
                return self.truth(r)
            if v.cls.fields is not None:
                return 1 if v.cls.fields else 0
            r = self.call_method(v, '__len__', [])
            if r is not ABSENT:
                return self.m.not_(self.N.eq(self.N.b2i(r), 0))
            return 1
        return self.nat.truth(self, v)

    # ---- operators -----------------------------------------------------------------------
    def binop(self, op, a, b, inplace=False):
        if type(a) is int and type(b) is int:
            return self.nat.int_binop(self, op, a, b)
        if type(a) is Choice:
            return self.split(a.alts, lambda x: self.binop(op, self.read(x)[0], b, inplace))
        if type(b) is Choice:
            if type(a) in (str, AStr) and op == '%':
                return self.nat.binop(self, op, a, b, inplace)
            return self.split(b.alts, lambda x: self.binop(op, a, self.read(x)[0], inplace))
        if isint(a) and isint(b):
            return self.nat.int_binop(self, op, self.N.b2i(a), self.N.b2i(b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            if not (type(a) in (str, AStr) and op == '%'):
                return self.obj_binop(op, a, b, inplace)
        return self.nat.binop(self, op, a, b, inplace)

    def obj_binop(self, op, a, b, inplace):
        name = OPNAMES[op]
        tries = []
        if isinstance(a, Obj):
            if inplace:
                tries.append((a, '__i%s__' % name, b))
            tries.append((a, '__%s__' % name, b))
        if isinstance(b, Obj):
            r = (b, '__r%s__' % name, a)
            if isinstance(a, Obj) and b.cls is not a.cls and a.cls in b.cls.mro:
                tries.insert(0, r)
            elif not (isinstance(a, Obj) and a.cls is b.cls):
                tries.append(r)
        return self._try_ops(tries, lambda: self.err_always('TypeError', 'unsupported operand type(s) for %s' % op))

    def _try_ops(self, tries, fail):
        if not tries:
            return fail()
        o, name, arg = tries[0]
        r = self.call_method(o, name, [arg])
        if r is ABSENT or r is NotImplemented:
            return self._try_ops(tries[1:], fail)
        if type(r) is Choice and any(x is NotImplemented for _, x in r.alts):
            def f(x):
                if x is NotImplemented:
                    return self._try_ops(tries[1:], fail)
                return x
            return self.split(r.alts, f)
        return r

    def compare(self, op, a, b):
        if op == 'Is' or op == 'IsNot':
            n = self.identical(a, b)
            return self.N.mkb(n if op == 'Is' else self.m.not_(n))
        if op == 'In' or op == 'NotIn':
            n = self.nat.contains(self, b, a)
            return self.N.mkb(n if op == 'In' else self.m.not_(n))
        if type(a) is Choice:
            return self.split(a.alts, lambda x: self.compare(op, self.read(x)[0], b))
        if type(b) is Choice:
            return self.split(b.alts, lambda x: self.compare(op, a, self.read(x)[0]))
        if isint(a) and isint(b):
            N, m = self.N, self.m
            x, y = N.b2i(a), N.b2i(b)
            if op == 'Eq':
                n = N.eq(x, y)
            elif op == 'NotEq':
                n = m.not_(N.eq(x, y))
            elif op == 'Lt':
                n = N.lt(x, y)
            elif op == 'Gt':
                n = N.lt(y, x)
            elif op == 'LtE':
                n = m.not_(N.lt(y, x))
            else:
                n = m.not_(N.lt(x, y))
            return N.mkb(n)
        ua = isinstance(a, Obj) and (a.cls.fields is None or a.cls.find(CMPNAMES[op]) is not ABSENT)
        ub = isinstance(b, Obj) and (b.cls.fields is None or b.cls.find(CMPREFL[op]) is not ABSENT)
        if ua or ub:
            name = CMPNAMES[op]
            tries = []
            if ua and a.cls.find(name) is not ABSENT and a.cls.find(name) is not None:
                tries.append((a, name, b))
            if ub:
                r = CMPREFL[op]
                if b.cls.find(r) is not ABSENT:
                    tries.append((b, r, a))
            if op == 'NotEq':
                # default __ne__ inverts __eq__
                if not tries:
                    return self.N.mkb(self.m.not_(self.truth(self.compare('Eq', a, b))))

            def fail():
                if op == 'Eq':
                    return a is b
                if op == 'NotEq':
                    return a is not b
                self.err_always('TypeError', 'ordering not supported')
            return self._try_ops(tries, fail)
        return self.nat.compare(self, op, a, b)

    def identical(self, a, b):
        m = self.m
        if type(a) is Choice:
            return m.any_([m.and_(g, self.identical(x, b)) for g, x in a.alts])
        if type(b) is Choice:
            return m.any_([m.and_(g, self.identical(a, x)) for g, x in b.alts])
        if a is b:
            return 1
        if type(a) in (bool, SB) and type(b) in (bool, SB):
            return m.not_(m.xor(a.n if type(a) is SB else int(a), b.n if type(b) is SB else int(b)))
        if a is None or b is None or isinstance(a, (PClass, NativeType, PFunc, Obj)) or \
                isinstance(b, (PClass, NativeType, PFunc, Obj)) or a is NotImplemented or b is NotImplemented:
            return 0
        if type(a) is bool or type(b) is bool:
            return 0
        if type(a) is type(b) and type(a) in (int, str):
            return 1 if a == b else 0
        raise Unsupported('identity of %s and %s' % (type(a), type(b)))

    # ---- unit entry points -------------------------------------------------------------------
    def run(self, f):
        """Run host function f under a fresh handler; returns (result or None, live pc, raised list)."""
        ctx = []
        self.hs.append(ctx)
        nf = len(self.frames)
        loops, self.loops = self.loops, []
        try:
            try:
                r = f()
                live = self.pc
            except DeadPath:
                r = None
                live = 0
        finally:
            self.hs.pop()
            del self.frames[nf:]
            self.loops = loops
        return r, live, [RaisedOut(g, e) for g, e in ctx]


UNDEFINED = ('NameError', 'UnboundLocalError', 'AttributeError')
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<',
          ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Div: '/', ast.Pow: '**',
          ast.MatMult: '@'}
OPNAMES = {'+': 'add', '-': 'sub', '*': 'mul', '//': 'floordiv', '%': 'mod', '<<': 'lshift', '>>': 'rshift',
           '&': 'and', '|': 'or', '^': 'xor', '/': 'truediv', '**': 'pow', '@': 'matmul'}
CMPNAMES = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
CMPREFL = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}
I = Interp
STMT = {ast.Expr: I.st_expr, ast.Pass: I.st_pass, ast.Assign: I.st_assign, ast.AnnAssign: I.st_annassign,
        ast.AugAssign: I.st_augassign, ast.Delete: I.st_del, ast.If: I.st_if, ast.While: I.st_while,
        ast.For: I.st_for, ast.Break: I.st_break, ast.Continue: I.st_continue, ast.Return: I.st_return,
        ast.Raise: I.st_raise, ast.Try: I.st_try, ast.With: I.st_with, ast.FunctionDef: I.st_funcdef,
        ast.ClassDef: I.st_classdef, ast.Import: I.st_import, ast.ImportFrom: I.st_importfrom,
        ast.Global: I.st_global, ast.Nonlocal: I.st_global, ast.Assert: I.st_assert}
EXPR = {ast.Constant: I.ev_constant, ast.Name: I.ev_name, ast.Tuple: I.ev_tuple, ast.List: I.ev_list,
        ast.Set: I.ev_set, ast.Dict: I.ev_dict, ast.Attribute: I.ev_attribute, ast.Subscript: I.ev_subscript,
        ast.Slice: I.ev_slice, ast.BinOp: I.ev_binop, ast.UnaryOp: I.ev_unaryop, ast.BoolOp: I.ev_boolop,
        ast.IfExp: I.ev_ifexp, ast.Compare: I.ev_compare, ast.Lambda: I.ev_lambda, ast.NamedExpr: I.ev_namedexpr,
        ast.JoinedStr: I.ev_joinedstr, ast.Starred: I.ev_starred, ast.Yield: I.ev_yield,
        ast.YieldFrom: I.ev_yieldfrom, ast.ListComp: I.ev_listcomp, ast.SetComp: I.ev_setcomp,
        ast.GeneratorExp: I.ev_genexp, ast.DictComp: I.ev_dictcomp, ast.Call: I.ev_call}
if hasattr(ast, 'Index'):
    EXPR[ast.Index] = I.ev_index
