"""More of the standard library: caching decorators, regular expressions over known text, context managers, deque."""
import ast
import re as _re
from .num import SI, SB, Unsupported
from .values import *


# ------------------------------------------------------------------ caching ----
class Cached(NativeObj):
    """functools.lru_cache: calls with the same arguments return the same object.  Arguments count as the same when they are
    equal in every state of the path; arguments that are equal in some states only are treated as different."""

    def __init__(self, f, typed=False):
        self.f = f
        self.state = {'entries': ()}

    def key(self, I, args, kw):
        return tuple(I.read(a)[0] for a in args), tuple(sorted((k, I.read(v)[0]) for k, v in kw.items()))

    def same(self, I, a, b, depth=0):
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is tuple and tb is tuple:
            return len(a) == len(b) and all(self.same(I, x, y) for x, y in zip(a, b))
        num = (int, bool, SI, SB)
        if ta in num and tb in num:
            return I.m.and_(I.pc, I.m.not_(I.N.eq(I.N.b2i(a), I.N.b2i(b)))) == 0
        if ta is AStr and tb is AStr:
            return a.parts == b.parts
        if ta is tb and ta in (str, bytes, float, type(None)):
            return a == b
        if ta is Obj and tb is Obj and a.cls is b.cls:
            if a.cls.fields is not None:
                return all(self.same(I, I.read(a.d[f])[0], I.read(b.d[f])[0]) for f in a.cls.fields)
            if a.cls.find('__hash__') is not ABSENT and depth < 3:
                r = I.compare('Eq', a, b)
                return I.m.and_(I.pc, I.m.not_(I.truth(r))) == 0
        return False

    def hash_check(self, I, a):
        if type(a) in (PList, PDict, PSet, PByteArray):
            I.err_always('TypeError', "unhashable type: '%s'" % I.nat.type_name(a))
        if type(a) is Obj and a.cls.fields is None and a.cls.find('__eq__') is not ABSENT and a.cls.find('__hash__') in (ABSENT, None):
            I.err_always('TypeError', "unhashable type: '%s'" % a.cls.name)
        if type(a) is tuple:
            for x in a:
                self.hash_check(I, x)

    def __call__(self, I, args, kw):
        m = I.m
        args = list(args)
        for j, a in enumerate(args):
            if type(a) is Choice:
                return I.split(a.alts, lambda x: self(I, args[:j] + [I.read(x)[0]] + args[j + 1:], kw))
        for n, a in kw.items():
            if type(a) is Choice:
                return I.split(a.alts, lambda x: self(I, args, dict(kw, **{n: I.read(x)[0]})))
        key = self.key(I, args, kw)
        for a in key[0]:
            self.hash_check(I, a)
        for g, k, r in self.state['entries']:
            p = m.and_(I.pc, g)
            if p == 0:
                continue
            pc0, I.pc = I.pc, p
            try:
                hit = len(k[0]) == len(key[0]) and [x for x, _ in k[1]] == [x for x, _ in key[1]] and self.same(I, k[0], key[0]) \
                    and all(self.same(I, x, y) for (_, x), (_, y) in zip(k[1], key[1]))
            finally:
                I.pc = pc0
            if hit:
                if p == I.pc:
                    return I.read(r)[0]
                return I.branch(g, lambda: I.read(r)[0], lambda: self(I, args, kw))
        r = I.call(self.f, args, kw)
        old = self.state['entries']
        if I.journal is not None:
            I.journal.append((self.state, 'entries', old))
        self.state['entries'] = old + ((I.pc, key, r),)
        return r

    def pget(self, I, name):
        if name == '__wrapped__':
            return self.f
        if name == 'cache_clear':
            def clear(i, a, k):
                if i.journal is not None:
                    i.journal.append((self.state, 'entries', self.state['entries']))
                self.state['entries'] = tuple((m2, k2, r2) for m2, k2, r2 in (
                    (i.m.and_(g, i.m.not_(i.pc)), kk, r) for g, kk, r in self.state['entries']) if m2)
            return Native('cache_clear', clear)
        if name == 'cache_info':
            raise Unsupported('cache_info')
        return I.nat.native_attr(I, self.f, name)


def lru(I, a, k):
    if a and isinstance(a[0], (PFunc, PBound, Native)):
        return Cached(a[0])
    return Native('lru_cache', lambda j, b, kk: Cached(b[0]))


# ------------------------------------------------------- regular expressions ----
def plain(v):
    if v is None or type(v) in (int, str, bytes, bool):
        return v
    if type(v) is tuple:
        return tuple(plain(x) for x in v)
    if type(v) is PByteArray or type(v) is PBytes:
        d = v.items if type(v) is PBytes else v.d['data']
        if type(d) is tuple and all(type(x) is int for x in d):
            return bytes(d)
    raise Unsupported('regular expression over symbolic text')


def wrapped(I, r):
    if type(r) is list:
        return PList([wrapped(I, x) for x in r], I.pc)
    if type(r) is tuple:
        return tuple(wrapped(I, x) for x in r)
    if type(r) is dict:
        d = PDict(I.pc)
        for k, v in r.items():
            I.nat.dict_set(I, d, k, wrapped(I, v))
        return d
    if isinstance(r, _re.Match):
        return Wrap(r)
    if isinstance(r, _re.Pattern):
        return Wrap(r)
    if r is None or type(r) in (int, str, bytes, bool):
        return r
    raise Unsupported('result of a regular expression')


class Wrap(NativeObj):
    def __init__(self, r):
        self.r = r

    def pget(self, I, name):
        if not hasattr(self.r, name) and name != '__getitem__':
            return ABSENT
        if name in ('sub', 'subn'):
            return Native(name, lambda i, a, k: sub(i, self.r, a, k, name))
        if name == 'finditer':
            return Native(name, lambda i, a, k: PIter([(1, Wrap(x)) for x in self.r.finditer(*[plain(y) for y in a])]))
        f = getattr(self.r, name)
        if callable(f):
            def call(i, a, k):
                try:
                    return wrapped(i, f(*[plain(x) for x in a], **{n: plain(v) for n, v in k.items()}))
                except IndexError as e:
                    i.err_always('IndexError', str(e))
            return Native('re.' + name, call)
        return wrapped(I, f)


def sub(I, pat, a, k, name):
    repl, text = a[0], plain(a[1] if len(a) > 1 else k['string'])
    if type(repl) in (str, bytes):
        return wrapped(I, getattr(pat, name)(repl, text, *[plain(x) for x in a[2:]], **{n: plain(v) for n, v in k.items() if n != 'string'}))
    if len(a) > 2 or k or name != 'sub':
        raise Unsupported('re.sub')
    out, pos = [], 0
    for x in pat.finditer(text):
        out.append(text[pos:x.start()])
        out.append(I.call(repl, [Wrap(x)], {}))
        pos = x.end()
    out.append(text[pos:])
    return I.nat.concat(I, out)


def re_module(I, N):
    def compile_(i, a, k):
        if type(a[0]) is Wrap:
            return a[0]
        try:
            return Wrap(_re.compile(*[plain(x) for x in a], **{n: plain(v) for n, v in k.items()}))
        except _re.error as e:
            i.err_always('ValueError', str(e))
    N['compile'] = Native('re.compile', compile_)

    def make(name):
        def f(i, a, k):
            fl = [plain(k['flags'])] if 'flags' in k else []
            p = a[0] if type(a[0]) is Wrap else compile_(i, [a[0]] + fl, {})
            rest = list(a[1:])
            if name in ('match', 'search', 'fullmatch', 'findall', 'finditer') and len(rest) > 1:
                p = compile_(i, [a[0], rest[1]], {})
                rest = rest[:1]
            return i.call(p.pget(i, name), rest, {n: v for n, v in k.items() if n != 'flags'})
        return f
    for nm in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split', 'sub', 'subn'):
        N[nm] = Native('re.' + nm, make(nm))
    N['escape'] = Native('re.escape', lambda i, a, k: _re.escape(plain(a[0])))
    for nm in ('I', 'IGNORECASE', 'X', 'VERBOSE', 'M', 'MULTILINE', 'S', 'DOTALL', 'A', 'ASCII'):
        N[nm] = int(getattr(_re, nm))
    N['error'] = I.builtins['ValueError']


# ------------------------------------------------------------ missing names ----
def real_types(v):
    import types
    t = type(v)
    if t in (str, AStr):
        return (str,)
    if t in (int, SI):
        return (int,)
    if t in (bool, SB):
        return (bool,)
    if t is PList:
        return (list,)
    if t is PByteArray:
        return (bytearray,)
    if t in (bytes, PBytes):
        return (bytes,)
    if t is PDict:
        return (dict,)
    if t is PSet:
        return (set,)
    if t is PIter:
        return (types.GeneratorType,) if v.isgen else (type(iter([])),)
    if t is PFunc:
        return (types.FunctionType,)
    if t is PBound:
        return (types.MethodType,)
    if t is Native:
        return (types.FunctionType, type)
    if t is NativeType:
        import builtins
        x = getattr(builtins, v.name, None)
        return (x, type) if isinstance(x, type) else (type,)
    return {tuple: (tuple,), PSlice: (slice,), PRange: (range,), float: (float,), PProperty: (property,), PStatic: (staticmethod,),
            PClassMethod: (classmethod,), type(None): (type(None),)}.get(t, ())


def check_unmodelled(v, name):
    for t in real_types(v):
        if hasattr(t, name):
            raise Unsupported('attribute %s of %s' % (name, t.__name__))


def check_abstract(I, cls):
    names = []
    for c in cls.mro:
        for n, f in c.ns.items():
            g = f.fget if type(f) is PProperty else f.f if isinstance(f, (PStatic, PClassMethod)) else f
            if isinstance(g, PFunc) and getattr(g, 'abstract', False):
                x = cls.find(n)
                x = x.fget if type(x) is PProperty else x.f if isinstance(x, (PStatic, PClassMethod)) else x
                if x is g:
                    names.append(n)
    if names and any(c.name == 'ABC' and c.module is None for c in cls.mro):
        I.err_always('TypeError', "Can't instantiate abstract class %s with abstract methods %s" % (cls.name, ', '.join(names)))


SIX = set('''PY2 PY3 PY34 Iterator MAXSIZE add_metaclass add_move advance_iterator assertCountEqual assertRaisesRegex assertRegex assertNotRegex
b binary_type byte2int callable class_types create_bound_method create_unbound_method ensure_binary ensure_str ensure_text exec_ functools
get_function_closure get_function_code get_function_defaults get_function_globals get_method_function get_method_self get_unbound_function
indexbytes int2byte integer_types io iterbytes iteritems iterkeys iterlists itertools itervalues moves next operator print_
python_2_unicode_compatible raise_from remove_move reraise string_types sys text_type types u unichr viewitems viewkeys viewvalues with_metaclass
wraps StringIO BytesIO'''.split())


# --------------------------------------------------------- context managers ----
class CMFactory(NativeObj):
    """A function decorated with contextlib.contextmanager."""

    def __init__(self, func):
        self.func = func

    def pget(self, interp, name):
        if name == '__wrapped__':
            return self.func
        return interp.nat.native_attr(interp, self.func, name)


# ------------------------------------------------------------------- classes ----
def check_slots(I, o, name):
    allowed = set()
    for c in o.cls.mro:
        if c.name == 'object':
            continue
        sl = c.ns.get('__slots__', ABSENT)
        if sl is ABSENT:
            return
        allowed |= set([sl] if type(sl) is str else I.sequence(sl))
    if name not in allowed and '__dict__' not in allowed:
        I.err_always('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))


def annotations(cls):
    """Annotated names of the class body, in order: (name, annotation, has a value)."""
    out = []
    for s in (cls.node.body if cls.node is not None else []):
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.append((s.target.id, s.annotation, s.value is not None))
        elif not isinstance(s, (ast.FunctionDef, ast.Assign, ast.Expr, ast.Pass, ast.ClassDef)):
            if any(isinstance(x, ast.AnnAssign) for x in ast.walk(s)):
                raise Unsupported('annotations under a condition')
    return out


def typed_tuple(I, cls):
    names = annotations(cls)
    cls.fields = [n for n, _, _ in names]
    cls.nt_defaults = dict((n, cls.ns.pop(n)) for n, _, has in names if has)


def data_fields(I, a, k):
    out = []
    for n, t, has in annotations(a[0]):
        x = ast.dump(t)
        if 'ClassVar' in x or 'InitVar' in x:
            if 'InitVar' in x:
                raise Unsupported('InitVar')
            continue
        out.append((n, has, a[0].ns.get(n)))
    return PList(out, I.pc)
