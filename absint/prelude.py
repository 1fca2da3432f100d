"""Parts of the standard library written in Python and interpreted like the package itself."""

MODULES = {
    'functools': '''
class cached_property(object):
    def __init__(self, func):
        self.func = func
        self.attrname = None
    def __set_name__(self, owner, name):
        self.attrname = name
    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        v = self.func(instance)
        _setraw(instance, self.attrname, v)
        return v
class partialmethod(object):
    def __init__(self, func, *args, **kw):
        self.func, self.args, self.kw = func, args, kw
    def __get__(self, obj, cls=None):
        func, args, kw = self.func, self.args, self.kw
        def bound(*a, **k):
            return func(obj, *(args + a), **dict(kw, **k))
        return bound
def cmp_to_key(f):
    class K(object):
        def __init__(self, obj):
            self.obj = obj
        def __lt__(self, other):
            return f(self.obj, other.obj) < 0
        def __gt__(self, other):
            return f(self.obj, other.obj) > 0
        def __eq__(self, other):
            return f(self.obj, other.obj) == 0
    return K
def total_ordering(cls):
    ns = cls.__dict__
    def has(n):
        for c in cls.__mro__:
            if c is not object and n in c.__dict__:
                return True
        return False
    if has('__lt__'):
        make = {'__gt__': lambda s, o: _neg(s.__lt__(o), s, o, True), '__le__': lambda s, o: _orx(s.__lt__(o), s, o), '__ge__': lambda s, o: _neg(s.__lt__(o), s, o, False)}
    elif has('__le__'):
        make = {'__ge__': lambda s, o: _neg(s.__le__(o), s, o, None), '__lt__': lambda s, o: _andx(s.__le__(o), s, o), '__gt__': lambda s, o: _neg(s.__le__(o), s, o, False)}
    elif has('__gt__'):
        make = {'__lt__': lambda s, o: _neg(s.__gt__(o), s, o, True), '__ge__': lambda s, o: _orx(s.__gt__(o), s, o), '__le__': lambda s, o: _neg(s.__gt__(o), s, o, False)}
    elif has('__ge__'):
        make = {'__le__': lambda s, o: _neg(s.__ge__(o), s, o, None), '__gt__': lambda s, o: _andx(s.__ge__(o), s, o), '__lt__': lambda s, o: _neg(s.__ge__(o), s, o, False)}
    else:
        raise ValueError('must define at least one ordering operation: < > <= >=')
    for n, f in make.items():
        if not has(n):
            setattr(cls, n, f)
    return cls
def _neg(r, s, o, strict):
    if r is NotImplemented:
        return r
    if strict is None:
        return not r or s == o
    if strict:
        return not r and s != o
    return not r
def _orx(r, s, o):
    if r is NotImplemented:
        return r
    return r or s == o
def _andx(r, s, o):
    if r is NotImplemented:
        return r
    return r and s != o
class _Dispatch(object):
    def __init__(self, func):
        self.func = func
        self.table = []
    def register(self, cls, func=None):
        if func is None:
            if isinstance(cls, type):
                return lambda f: self.register(cls, f)
            return _annotated(self, cls)
        self.table.append((cls, func))
        return func
    def dispatch(self, cls):
        for c in cls.__mro__:
            for k, f in self.table:
                if k is c:
                    return f
        return self.func
    def __call__(self, *args, **kw):
        best, found = self.func, None
        for k, f in self.table:
            if isinstance(args[0], k) and (found is None or issubclass(k, found)):
                best, found = f, k
        return best(*args, **kw)
def singledispatch(f):
    return _Dispatch(f)
''',
    'itertools': '''
def accumulate(it, func=None, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in it:
        if first:
            total = x
            first = False
        elif func is None:
            total = total + x
        else:
            total = func(total, x)
        yield total
def starmap(f, it):
    for a in it:
        yield f(*a)
def dropwhile(f, it):
    on = True
    for x in it:
        if on:
            on = f(x)
        if not on:
            yield x
def filterfalse(f, it):
    for x in it:
        if not (x if f is None else f(x)):
            yield x
def compress(data, sel):
    for d, s in zip(data, sel):
        if s:
            yield d
def zip_longest(*its, fillvalue=None):
    cols = [list(i) for i in its]
    n = 0
    for c in cols:
        n = max(n, len(c))
    for i in range(n):
        yield tuple([c[i] if i < len(c) else fillvalue for c in cols])
def pairwise(it):
    l = list(it)
    return zip(l, l[1:])
def permutations(it, r=None):
    pool = tuple(it)
    r = len(pool) if r is None else r
    for ix in product(range(len(pool)), repeat=r):
        if len(set(ix)) == r:
            yield tuple([pool[i] for i in ix])
def combinations(it, r):
    pool = tuple(it)
    for ix in product(range(len(pool)), repeat=r):
        if list(ix) == sorted(set(ix)):
            yield tuple([pool[i] for i in ix])
def groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(g)) for k, g in out])
def islice(it, *args):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    else:
        start, stop, step = (args + (1,))[:3]
    start = 0 if start is None else start
    step = 1 if step is None else step
    it = iter(it)
    i = 0
    nxt = start
    while stop is None or i < stop:
        try:
            x = next(it)
        except StopIteration:
            break
        if i == nxt:
            yield x
            nxt += step
        i += 1
class cycle(object):
    def __init__(self, it):
        self.items, self.i = list(it), 0
    def __iter__(self):
        return self
    def __next__(self):
        if not self.items:
            raise StopIteration()
        x = self.items[self.i]
        self.i = (self.i + 1) % len(self.items)
        return x
def tee(it, n=2):
    l = list(it)
    return tuple([iter(l) for _ in range(n)])
''',
    'contextlib': '''
class suppress(object):
    def __init__(self, *excs):
        self.excs = excs
    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)
class closing(object):
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *info):
        self.thing.close()
class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, *info):
        pass
class AbstractContextManager(object):
    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        return None
class ExitStack(object):
    def __init__(self):
        self._calls = []
    def __enter__(self):
        return self
    def callback(self, f, *a, **k):
        self._calls.append(lambda t, v, tb: f(*a, **k) and False)
        return f
    def push(self, cm):
        self._calls.append(cm.__exit__)
        return cm
    def enter_context(self, cm):
        r = cm.__enter__()
        self._calls.append(cm.__exit__)
        return r
    def close(self):
        self.__exit__(None, None, None)
    def __exit__(self, t, v, tb):
        done = False
        while self._calls:
            if self._calls.pop()(t, v, tb):
                done, t, v = True, None, None
        return done
''',
    'collections': '''
class ChainMap(object):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]
    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)
    def get(self, key, default=None):
        return self[key] if key in self else default
    def __contains__(self, key):
        for m in self.maps:
            if key in m:
                return True
        return False
    def __setitem__(self, key, value):
        self.maps[0][key] = value
    def _all(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return d
    def __iter__(self):
        return iter(self._all())
    def __len__(self):
        return len(self._all())
    def keys(self):
        return self._all().keys()
    def items(self):
        return self._all().items()
    def values(self):
        return self._all().values()
class UserDict(object):
    def __init__(self, dict=None, **kw):
        self.data = {}
        if dict is not None:
            self.update(dict)
        self.update(kw)
    def __len__(self):
        return len(self.data)
    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, '__missing__'):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)
    def __setitem__(self, key, item):
        self.data[key] = item
    def __delitem__(self, key):
        del self.data[key]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, key):
        return key in self.data
    def get(self, key, default=None):
        return self[key] if key in self else default
    def keys(self):
        return self.data.keys()
    def items(self):
        return self.data.items()
    def values(self):
        return self.data.values()
    def update(self, other=(), **kw):
        for k, v in dict(other, **kw).items():
            self[k] = v
    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]
    def pop(self, key, *d):
        if key in self.data or not d:
            return self.data.pop(key)
        return d[0]
    def copy(self):
        c = self.__class__()
        c.data = self.data.copy()
        return c
class UserList(object):
    def __init__(self, initlist=None):
        self.data = [] if initlist is None else list(initlist)
    def __len__(self):
        return len(self.data)
    def __getitem__(self, i):
        return self.data[i]
    def __setitem__(self, i, v):
        self.data[i] = v
    def __delitem__(self, i):
        del self.data[i]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, x):
        return x in self.data
    def append(self, x):
        self.data.append(x)
    def extend(self, x):
        self.data.extend(x)
    def insert(self, i, x):
        self.data.insert(i, x)
    def pop(self, i=-1):
        return self.data.pop(i)
def Counter(it=()):
    d = defaultdict(int)
    for x in it:
        d[x] += 1
    return d
''',
    'heapq': '''
def heapify(l):
    l.sort()
def heappush(l, x):
    l.append(x)
    l.sort()
def heappop(l):
    l.sort()
    return l.pop(0)
def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]
def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]
''',
    'bisect': '''
def bisect_left(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    for i in range(lo, hi):
        if not a[i] < x:
            return i
    return hi
def bisect_right(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    for i in range(lo, hi):
        if x < a[i]:
            return i
    return hi
bisect = bisect_right
def insort_right(a, x, lo=0, hi=None):
    a.insert(bisect_right(a, x, lo, hi), x)
insort = insort_right
def insort_left(a, x, lo=0, hi=None):
    a.insert(bisect_left(a, x, lo, hi), x)
''',
    'binascii': '''
def hexlify(b):
    return bytes(b).hex().encode()
def unhexlify(s):
    return bytes.fromhex(s if isinstance(s, str) else s.decode())
''',
    'threading': '''
class _Lock(object):
    def __enter__(self):
        return True
    def __exit__(self, *a):
        return None
    def acquire(self, *a, **k):
        return True
    def release(self):
        return None
def Lock():
    return _Lock()
RLock = Lock
class local(object):
    pass
''',
    'io': '''
class StringIO(object):
    def __init__(self, text=''):
        self.text = text
    def write(self, s):
        self.text = self.text + s
        return len(s)
    def getvalue(self):
        return self.text
    def flush(self):
        pass
    def close(self):
        pass
class BytesIO(object):
    def __init__(self, data=b''):
        self.data, self.pos = bytes(data), 0
    def read(self, n=-1):
        if n is None or n < 0:
            r = self.data[self.pos:]
        else:
            r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r
    def tell(self):
        return self.pos
    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.data)
        self.pos = pos
        return pos
    def write(self, b):
        self.data = self.data[:self.pos] + bytes(b) + self.data[self.pos + len(b):]
        self.pos += len(b)
        return len(b)
    def getvalue(self):
        return self.data
    def getbuffer(self):
        return self.data
    def close(self):
        pass
''',
    '_memoryview': '''
class memoryview(object):
    def __init__(self, object, _lo=None, _hi=None, _step=1):
        if isinstance(object, memoryview):
            self.obj, self._at = object.obj, object._at
        elif isinstance(object, (bytes, bytearray)):
            self.obj, self._at = object, range(len(object))
        else:
            raise TypeError('memoryview: a bytes-like object is required')
        self.readonly = isinstance(self.obj, bytes)
        self.format, self.itemsize, self.ndim = 'B', 1, 1
    def __len__(self):
        return len(self._at)
    @property
    def nbytes(self):
        return len(self._at)
    def _part(self, k):
        r = memoryview(self)
        r._at = self._at[k]
        return r
    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._part(k)
        try:
            at = self._at[k]
        except IndexError:
            raise IndexError('index out of bounds on dimension 1')
        return self.obj[at]
    def __setitem__(self, k, v):
        if self.readonly:
            raise TypeError('cannot modify read-only memory')
        if isinstance(k, slice):
            at = self._at[k]
            v = bytes(v)
            if len(at) != len(v):
                raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
            for i, x in zip(at, v):
                self.obj[i] = x
        else:
            self.obj[self._at[k]] = v
    def __iter__(self):
        return iter([self.obj[i] for i in self._at])
    def tolist(self):
        return [self.obj[i] for i in self._at]
    def tobytes(self, order=None):
        return bytes([self.obj[i] for i in self._at])
    def hex(self, *a):
        return self.tobytes().hex(*a)
    def toreadonly(self):
        r = memoryview(self)
        r.readonly = True
        return r
    def release(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def __contains__(self, x):
        return x in self.tolist()
    def __eq__(self, o):
        if isinstance(o, memoryview):
            o = o.tobytes()
        if isinstance(o, (bytes, bytearray)):
            return self.tobytes() == o
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return o + self.tobytes()
        return NotImplemented
''',
    'struct': '''
class Struct(object):
    def __init__(self, format):
        self.format = format
        self.size = calcsize(format)
    def pack(self, *a):
        return pack(self.format, *a)
    def unpack(self, b):
        return unpack(self.format, b)
    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)
    def iter_unpack(self, b):
        return iter([unpack_from(self.format, b, i) for i in range(0, len(b), self.size)])
    def pack_into(self, b, offset, *a):
        b[offset:offset + self.size] = pack(self.format, *a)
def pack_into(f, b, offset, *a):
    b[offset:offset + calcsize(f)] = pack(f, *a)
def iter_unpack(f, b):
    n = calcsize(f)
    if len(b) % n:
        raise error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    return iter([unpack_from(f, b, i) for i in range(0, len(b), n)])
''',
    'array': '''
_SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8}
class array(object):
    def __init__(self, typecode, init=()):
        self.typecode, self.itemsize = typecode, _SIZES[typecode]
        self._items = []
        if isinstance(init, (bytes, bytearray)):
            self.frombytes(init)
        else:
            self.extend(init)
    def _check(self, v):
        bits = 8 * self.itemsize
        if self.typecode in 'BHILQ':
            lo, hi = 0, 1 << bits
        else:
            lo, hi = -(1 << (bits - 1)), 1 << (bits - 1)
        if not lo <= v < hi:
            raise OverflowError('value out of range')
        return v
    def append(self, v):
        self._items.append(self._check(v))
    def extend(self, it):
        for v in it:
            self.append(v)
    def frombytes(self, b):
        n = self.itemsize
        if len(b) % n:
            raise ValueError('bytes length not a multiple of item size')
        for i in range(0, len(b), n):
            self._items.append(int.from_bytes(b[i:i + n], 'little', signed=self.typecode in 'bhilq'))
    def tobytes(self):
        out = b''
        for v in self._items:
            out = out + int(v).to_bytes(self.itemsize, 'little', signed=self.typecode in 'bhilq')
        return out
    def tolist(self):
        return list(self._items)
    def __len__(self):
        return len(self._items)
    def __iter__(self):
        return iter(self._items)
    def __getitem__(self, k):
        if isinstance(k, slice):
            return array(self.typecode, self._items[k])
        return self._items[k]
    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self._items[k] = list(v)
        else:
            self._items[k] = self._check(v)
    def __eq__(self, o):
        return isinstance(o, array) and self._items == o._items
    def byteswap(self):
        b = self.tobytes()
        n = self.itemsize
        del self._items[:]
        for i in range(0, len(b), n):
            self.frombytes(b[i:i + n][::-1])
''',
    'math': '''
def gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a
def prod(it, start=1):
    for x in it:
        start = start * x
    return start
''',
    'textwrap': '''
def indent(text, prefix):
    return ''.join([prefix + l for l in text.splitlines(True)])
''',
    'enum': '''
def _ops(cls):
    def make(op):
        return lambda s, o: NotImplemented if not isinstance(o, int) else op(s.value, _i(o))
    def rmake(op):
        return lambda s, o: NotImplemented if not isinstance(o, int) else op(_i(o), s.value)
    for n, op in (('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('floordiv', lambda a, b: a // b),
                  ('mod', lambda a, b: a % b), ('and', lambda a, b: a & b), ('or', lambda a, b: a | b), ('xor', lambda a, b: a ^ b),
                  ('lshift', lambda a, b: a << b), ('rshift', lambda a, b: a >> b), ('truediv', lambda a, b: a / b), ('pow', lambda a, b: a ** b)):
        setattr(cls, '__' + n + '__', make(op))
        setattr(cls, '__r' + n + '__', rmake(op))
    for n, op in (('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('lt', lambda a, b: a < b), ('gt', lambda a, b: a > b),
                  ('le', lambda a, b: a <= b), ('ge', lambda a, b: a >= b)):
        setattr(cls, '__' + n + '__', make(op))
def _i(x):
    return x.value if isinstance(x, Enum) else x
class _IntMixin(object):
    def __index__(self):
        return self.value
    def __int__(self):
        return self.value
    def __bool__(self):
        return self.value != 0
    def __hash__(self):
        return hash(self.value)
    def __neg__(self):
        return -self.value
    def __pos__(self):
        return self.value
    def __invert__(self):
        return ~self.value
    def __abs__(self):
        return abs(self.value)
    def __format__(self, spec):
        return format(self.value, spec)
    def bit_length(self):
        return self.value.bit_length()
    def to_bytes(self, *a, **k):
        return self.value.to_bytes(*a, **k)
_ops(_IntMixin)
class IntEnum(_IntMixin, Enum):
    pass
class IntFlag(_IntMixin, Enum):
    pass
''',
    'dataclasses': '''
class FrozenInstanceError(AttributeError):
    pass
class _Missing(object):
    pass
MISSING = _Missing()
class _Field(object):
    pass
def field(default=MISSING, default_factory=MISSING, init=True, repr=True, compare=True, hash=None, metadata=None, kw_only=False):
    f = _Field()
    f.default, f.default_factory, f.init, f.repr, f.compare = default, default_factory, init, repr, compare
    return f
def dataclass(cls=None, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, match_args=True, kw_only=False, slots=False):
    def wrap(c):
        return _process(c, init, repr, eq, order, unsafe_hash, frozen)
    return wrap if cls is None else wrap(cls)
def _process(cls, init, repr, eq, order, unsafe_hash, frozen):
    fields = []
    for b in reversed(cls.__mro__[1:]):
        for n, f in b.__dict__.get('__data_fields__', ()):
            fields = [x for x in fields if x[0] != n] + [(n, f)]
    own = []
    for n, has, v in _datafields(cls):
        if not has:
            f = field()
        elif isinstance(v, _Field):
            f = v
            if f.default is not MISSING:
                setattr(cls, n, f.default)
        else:
            if isinstance(v, (list, dict, set)):
                raise ValueError('mutable default for a field')
            f = field(default=v)
        own.append(n)
        done = False
        for i in range(len(fields)):
            if fields[i][0] == n:
                fields[i] = (n, f)
                done = True
        if not done:
            fields.append((n, f))
    seen = False
    for n, f in fields:
        if f.init:
            if f.default is not MISSING or f.default_factory is not MISSING:
                seen = True
            elif seen:
                raise TypeError('non-default argument follows default argument')
    cls.__data_fields__ = tuple(fields)
    name = cls.__name__
    compared = [n for n, f in fields if f.compare]
    shown = [n for n, f in fields if f.repr]
    mine = cls.__dict__
    def __init__(self, *args, **kw):
        names = [n for n, f in fields if f.init]
        if len(args) > len(names):
            raise TypeError('too many positional arguments')
        given = dict(zip(names, args))
        for k in kw:
            if k in given or k not in names:
                raise TypeError('unexpected keyword argument')
            given[k] = kw[k]
        for n, f in fields:
            if n in given:
                _setraw(self, n, given[n])
            elif f.default_factory is not MISSING:
                _setraw(self, n, f.default_factory())
            elif f.default is not MISSING:
                _setraw(self, n, f.default)
            elif f.init:
                raise TypeError('missing required argument')
        if hasattr(cls, '__post_init__'):
            self.__post_init__()
    def vals(o):
        return tuple([getattr(o, n) for n in compared])
    def __eq__(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        return vals(self) == vals(other)
    def __repr__(self):
        return self.__class__.__name__ + '(' + ', '.join(['%s=%r' % (n, getattr(self, n)) for n in shown]) + ')'
    def __setattr__(self, n, v):
        raise FrozenInstanceError('cannot assign to field')
    def __delattr__(self, n):
        raise FrozenInstanceError('cannot delete field')
    def __hash__(self):
        return hash(vals(self))
    if init and '__init__' not in mine:
        cls.__init__ = __init__
    if repr and '__repr__' not in mine:
        cls.__repr__ = __repr__
    if eq and '__eq__' not in mine:
        cls.__eq__ = __eq__
        if frozen or unsafe_hash:
            cls.__hash__ = __hash__
        elif '__hash__' not in mine:
            cls.__hash__ = None
    if order:
        cls.__lt__ = lambda s, o: vals(s) < vals(o)
        cls.__le__ = lambda s, o: vals(s) <= vals(o)
        cls.__gt__ = lambda s, o: vals(s) > vals(o)
        cls.__ge__ = lambda s, o: vals(s) >= vals(o)
    if frozen:
        cls.__setattr__ = __setattr__
        cls.__delattr__ = __delattr__
    return cls
def fields(x):
    return tuple([f for n, f in x.__data_fields__])
def asdict(x):
    return dict([(n, getattr(x, n)) for n, f in x.__data_fields__])
def astuple(x):
    return tuple([getattr(x, n) for n, f in x.__data_fields__])
def is_dataclass(x):
    return hasattr(x, '__data_fields__')
def replace(x, **kw):
    d = dict([(n, getattr(x, n)) for n, f in x.__data_fields__ if f.init])
    d.update(kw)
    return x.__class__(**d)
''',
}
