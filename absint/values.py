"""Abstract Python values."""
from .num import SI, SB, Unsupported


class _Absent(object):
    def __repr__(self):
        return '<absent>'


ABSENT = _Absent()


class DeadPath(Exception):
    """The current abstract path has no remaining states."""


class Choice(object):
    """Guarded alternatives (mutually exclusive guards)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Choice%r' % (self.alts,)


class AStr(object):
    """Text with symbolic parts: str | ('map', ((text, guard),..)) | ('fmt', spec, SI) | ('pad', spec, AStr)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'AStr(%s)' % (', '.join(p if isinstance(p, str) else '<%s>' % p[0] for p in self.parts))


class PList(object):
    __slots__ = ('d', 'birth', 'deque')

    def __init__(self, items, birth):
        self.deque = False
        self.d = {'data': tuple(items)}
        self.birth = birth


class PSet(PList):
    __slots__ = ()


class PByteArray(PList):
    __slots__ = ()


class PBytes(object):
    """Immutable bytes with symbolic items."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class PDict(object):
    __slots__ = ('d', 'k', 'birth', 'default', 'owner')

    def __init__(self, birth, default=None):
        self.owner = None           # the object whose attributes these are
        self.d = {}
        self.k = {}
        self.birth = birth
        self.default = default


class PSlice(object):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class PRange(object):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class PIter(object):
    """Materialised iterator: [(guard, value)] then exceptions [(guard, exc)]."""
    __slots__ = ('items', 'pos', 'tail', 'isgen', 'ret')

    def __init__(self, items, tail=(), isgen=False):
        self.items = list(items) if isgen != 'count' else items
        self.pos = 0
        self.tail = list(tail)
        self.isgen = isgen
        self.ret = None


class PModule(object):
    def __init__(self, name, ns=None, file=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.file = file

    def __repr__(self):
        return '<module %s>' % self.name


class PFunc(object):
    def __init__(self, node, name, env, module, defaults, kwdefaults, info, qual):
        self.node, self.name, self.env, self.module = node, name, env, module
        self.defaults, self.kwdefaults, self.info, self.qual = defaults, kwdefaults, info, qual
        self.attrs = {}
        self.cls = None

    def __repr__(self):
        return '<func %s>' % self.qual


class PBound(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Native(object):
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<native %s>' % self.name


class NativeType(object):
    """Builtin type usable in isinstance and callable."""

    def __init__(self, name, fn=None, names=None):
        self.name, self.fn = name, fn
        self.names = names or (name,)   # type names it matches
        self.methods = {}

    def __repr__(self):
        return '<type %s>' % self.name


class PClass(object):
    def __init__(self, name, bases, ns, module=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = self._mro()
        self.is_exc = any(getattr(b, 'is_exc', False) for b in bases)
        self.enum = any(getattr(b, 'enum', False) for b in bases)
        self.fields = None
        for b in bases:
            if getattr(b, 'fields', None):
                self.fields = b.fields
                self.nt_defaults = b.nt_defaults
        self.node = None
        self.members = None
        self.native_base = None
        for b in self.mro[1:]:
            if getattr(b, 'native_base', None):
                self.native_base = b.native_base

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro conflict')
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    s.pop(0)

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                v = c.ns[name]
                if type(v) is Unknown:
                    raise Unsupported(v.why)
                return v
        return ABSENT

    def __repr__(self):
        return '<class %s>' % self.name


class Unknown(object):
    """What a statement of a module or class body binds when the analysis cannot represent that statement."""

    def __init__(self, why):
        self.why = why


class PProperty(object):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class PStatic(object):
    def __init__(self, f):
        self.f = f


class PClassMethod(object):
    def __init__(self, f):
        self.f = f


class PSuper(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Obj(object):
    _n = 0
    expected = False

    def __init__(self, cls, birth):
        self.cls = cls
        self.d = {}
        self.birth = birth
        Obj._n += 1
        self.id = Obj._n
        self.where = None

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.id)


class NativeObj(object):
    """Host-implemented object: attribute lookup through methods()/get()."""

    def pget(self, interp, name):
        f = getattr(self, 'p_' + name, None)
        if f is None:
            return ABSENT
        return Native(name, f)


class Env(object):
    __slots__ = ('vars', 'parent', 'birth', 'info', 'kind', 'module', 'frame')

    def __init__(self, parent, birth, info, kind, module):
        self.vars = {}
        self.parent = parent
        self.birth = birth
        self.info = info
        self.kind = kind          # 'func' | 'class' | 'module'
        self.module = module
        self.frame = None


class Frame(object):
    __slots__ = ('env', 'func', 'rets', 'returned', 'yields', 'line', 'cls', 'selfarg', 'hook')

    def __init__(self, env, func):
        self.env, self.func = env, func
        self.rets = []
        self.returned = 0
        self.yields = None
        self.line = 0
        self.cls = None
        self.selfarg = None
        self.hook = None


class GenCM(object):
    """A call of a function decorated with contextlib.contextmanager."""

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw
