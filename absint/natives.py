"""Builtins, standard-library stand-ins and container/text protocols of the interpreter."""
import ast
import operator as _operator
import string as _string
import sys
from .num import SI, SB, Unsupported
from .values import *
from . import text as T
from . import more, prelude
from .more import check_unmodelled, check_abstract

INT = (int, bool, SI, SB)


def isint(v):
    return type(v) in INT


# ---------------------------------------------------------------- kinds ----
def kind(v):
    t = type(v)
    if t is SI or t is int:
        return 'int'
    if t is SB or t is bool:
        return 'bool'
    if t is str or t is AStr:
        return 'str'
    if t is tuple:
        return 'tuple'
    if t is PList:
        return 'list'
    if t is PDict:
        return 'dict'
    if t is PSet:
        return 'set'
    if t is PByteArray:
        return 'bytearray'
    if t is bytes or t is PBytes:
        return 'bytes'
    if t is PSlice:
        return 'slice'
    if t is PRange:
        return 'range'
    if v is None:
        return 'NoneType'
    if t is float or t is FloatQ or t is MonoQ:
        return 'float'
    if t is PFunc:
        return 'function'
    if t is PBound:
        return 'method'
    if t is Native:
        return 'builtin_function_or_method'
    if t is PModule:
        return 'module'
    if t is PIter:
        return 'generator'
    if t is Obj:
        return v.cls.name
    if t in (PClass, NativeType):
        return 'type'
    return t.__name__


def type_name(v):
    return kind(v)


def isinst(interp, v, t):
    m = interp.m
    if type(v) is Choice:
        return m.any_([m.and_(g, isinst(interp, a, t)) for g, a in v.alts])
    if type(t) is tuple:
        return m.any_([isinst(interp, v, x) for x in t])
    if isinstance(t, PClass):
        if type(v) is Obj:
            return 1 if t in v.cls.mro else 0
        if t.name == 'object':
            return 1
        return 0
    if isinstance(t, NativeType):
        if t.name == 'object':
            return 1
        if type(v) is Obj:
            if v.cls.fields is not None:
                return 1 if 'tuple' in t.names else 0
            if v.cls.enum and v.cls.find('__index__') is not ABSENT and 'int' in t.names:
                return 1
            return 1 if any(getattr(c, 'native_base', None) in t.names for c in v.cls.mro) else 0
        k = kind(v)
        if k == 'type' and t.name == 'type':
            return 1
        return 1 if k in t.names else 0
    if type(t) is PList:
        interp.err_always('TypeError', 'isinstance() arg 2 must be a type')
    raise Unsupported('isinstance type %r' % (t,))


def class_of_type(interp, t):
    if t.name == 'object':
        return interp.builtins['object']
    c = PClass(t.name, [interp.builtins['object']], {})
    c.native_base = t.name
    return c


# ------------------------------------------------------------- integers ----
class FloatQ(NativeObj):
    """The float nearest to a / b."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def trunc(self, interp):
        N, m = interp.N, interp.m
        if type(self.b) is not SI and self.b < 0:
            return N.neg(FloatQ(self.a, -self.b).trunc(interp))
        pa = N.pure(self.a) if type(self.a) is SI else N.bits(self.a, max(1, self.a.bit_length())) if self.a >= 0 else None
        pb = N.pure(self.b) if type(self.b) is SI else N.bits(self.b, max(1, self.b.bit_length())) if self.b >= 0 else None
        if pa is None or pb is None:
            raise Unsupported('true division of signed values')
        if len(pa) <= 53 and len(pb) <= 53:
            return int_binop(interp, '//', self.a, self.b)     # exact below 2**53
        return N.from_bits([m.atom(('fdiv', k, tuple(pa), tuple(pb)), 5, k) for k in range(len(pa) + 1)])


class MonoQ(NativeObj):
    """A float that grows with an integer (a logarithm, a root)."""

    def __init__(self, v, fn):
        self.v, self.fn = v, fn

    def map(self, interp, h):
        """h of the float, an integer that grows with it: by the least arguments that reach each result."""
        N, m = interp.N, interp.m
        bits = N.pure(self.v)
        if bits is None or len(bits) > 256:
            raise Unsupported('float of a signed integer')
        top = (1 << len(bits)) - 1
        low = next((x for x in (0, 1) if self.ok(x)), None)
        if low is None:
            raise Unsupported('float function')
        f = lambda x: h(self.fn(x))
        lo, hi = f(low), f(top)
        if hi - lo > 300:
            raise Unsupported('float result of many values')
        out = lo
        for k in range(lo + 1, hi + 1):
            a, b = low, top
            while b - a > 1:
                c = (a + b) // 2
                a, b = (a, c) if f(c) >= k else (c, b)
            out = N.add(out, N.b2i(N.mkb(m.not_(N.lt(self.v, b)))))
        return out

    def ok(self, x):
        try:
            self.fn(x)
        except ValueError:
            return False
        return True

    def then(self, op, c):
        f = self.fn
        if type(c) not in (int, float) or op in '*/' and c <= 0:
            raise Unsupported('float arithmetic')
        g = {'+': lambda x: f(x) + c, '-': lambda x: f(x) - c, '*': lambda x: f(x) * c, '/': lambda x: f(x) / c}.get(op)
        if g is None:
            raise Unsupported('float arithmetic')
        return MonoQ(self.v, g)


def int_binop(interp, op, a, b):
    N, m = interp.N, interp.m
    if type(a) is not SI and type(b) is not SI:
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op in ('<<', '>>'):
            if b < 0:
                interp.err_always('ValueError', 'negative shift count')
            if op == '<<':
                if b > 100000:
                    raise Unsupported('huge shift')
                return a << b
            return a >> b
        if op in ('//', '%', '/'):
            if b == 0:
                interp.err_always('ZeroDivisionError', 'division by zero')
            return a // b if op == '//' else a % b if op == '%' else a / b
        if op == '**':
            if b < 0:
                return float(a) ** b
            if b > 4096:
                raise Unsupported('huge power')
            return a ** b
        interp.err_always('TypeError', 'unsupported operand type(s) for %s' % op)
    if op == '+':
        return N.add(a, b)
    if op == '-':
        return N.sub(a, b)
    if op == '*':
        return N.mul(a, b)
    if op == '&':
        return N.band(a, b)
    if op == '|':
        return N.bor(a, b)
    if op == '^':
        return N.bxor(a, b)
    if op in ('<<', '>>'):
        if type(b) is SI:
            b = N.simplify(b, interp.pc)
        if type(b) is SI:
            neg = N.lt(b, 0)
            if m.and_(neg, interp.pc):
                interp.err('ValueError', 'negative shift count', neg)
                b = N.simplify(b, interp.pc)
        if type(b) is not SI:
            if b < 0:
                interp.err_always('ValueError', 'negative shift count')
            return N.shl(a, b) if op == '<<' else N.shr(a, b)
        f = N.shl if op == '<<' else N.shr
        lo, hi = N.rng(b)
        p = N.pure(b)
        if p is not None and len(p) <= 9:
            r = a
            for k, n in enumerate(p):
                if n == 0:
                    continue
                if m.and_(n, interp.pc) == 0:
                    continue
                r = N.simplify(N.ite(n, f(r, 1 << k), r), interp.pc)
            return r
        vals = N.values(b, interp.pc, 300)
        if vals is None:
            if type(a) is SI or a:
                raise Unsupported('shift by unbounded amount')
            return 0
        r = f(a, vals[-1][0])
        for v, g in reversed(vals[:-1]):
            r = N.ite(g, f(a, v), r)
        return N.simplify(r, interp.pc)
    if op in ('//', '%', '/'):
        z = N.eq(b, 0)
        interp.err('ZeroDivisionError', 'division by zero', z)
        if type(b) is SI:
            b = N.simplify(b, interp.pc)
        if op == '/':
            return FloatQ(a, b)
        if type(b) is not SI and b > 0 and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return N.shr(a, k) if op == '//' else N.mod2(a, k)
        if type(b) is not SI and b < 0:
            # a // -d == -a // d  and  a % -d == -(-a % d)
            r = int_binop(interp, op, N.neg(a), -b)
            return r if op == '//' else N.neg(r)
        if type(b) is not SI:
            bv = [(b, interp.pc)]
        else:
            bv = N.values(b, interp.pc, 70)
            if bv is None:
                return opaque_division(interp, op, a, b)
        out = []
        for d, g in bv:
            av = N.values(a, m.and_(interp.pc, g), 5000) if type(a) is SI else [(a, g)]
            if av is None:
                return opaque_division(interp, op, a, b)
            for x, h in av:
                out.append(((x // d) if op == '//' else (x % d), m.and_(g, h)))
        d = {}
        for v, g in out:
            d[v] = m.or_(d.get(v, 0), g)
        return pure_from_table(N, m, d)
    if op == '**':
        if type(b) is not SI and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = N.mul(r, a)
            return r
        if a == 2:
            return int_binop(interp, '<<', 1, b)
        raise Unsupported('symbolic power')
    interp.err_always('TypeError', 'unsupported operand type(s) for %s' % op)


def opaque_division(interp, op, a, b):
    """Quotient or remainder of two non-negative numbers as a function of their bits."""
    N, m = interp.N, interp.m
    p = []
    for x in (a, b):
        q = N.pure(x) if type(x) is SI else N.bits(x, x.bit_length()) if x >= 0 else None
        if q is None:
            raise Unsupported('division of wide signed values')
        p.append(tuple(q))
    n = len(p[0]) if op == '//' else min(len(p[0]), len(p[1]))
    return N.from_bits([m.atom(('idiv' if op == '//' else 'imod', k, p[0], p[1]), 5, k) for k in range(n)])


def pure_from_table(N, m, d):
    """Value with guards per constant."""
    if all(v >= 0 for v in d):
        w = max(d).bit_length()
        return N.from_bits([m.any_([g for v, g in d.items() if (v >> k) & 1]) for k in range(w)])
    return N.lin(0, [(g, v) for v, g in d.items()])


def to_index(interp, v):
    """__index__ protocol; returns int/SI or raises TypeError."""
    if isint(v):
        return interp.N.b2i(v)
    if type(v) is Choice:
        return interp.split(v.alts, lambda a: to_index(interp, a))
    if type(v) is Obj:
        r = interp.call_method(v, '__index__', [])
        if r is not ABSENT:
            return to_index(interp, r)
    interp.err_always('TypeError', "'%s' object cannot be interpreted as an integer" % type_name(v))


# ----------------------------------------------------------------- text ----
def is_text(v):
    return type(v) is str or type(v) is AStr


def concat(interp, parts):
    return T.concat(parts)


def choice_text(interp, v):
    """Collapse a Choice of texts to one abstract text when possible."""
    if type(v) is Choice and all(type(a) is str or (type(a) is AStr and len(a.parts) == 1 and a.parts[0][0] == 'map')
                                 for _, a in v.alts):
        m = interp.m
        items = []
        for g, a in v.alts:
            if type(a) is str:
                items.append((a, g))
            else:
                items.extend((t, m.and_(g, h)) for t, h in a.parts[0][1])
        return T.mkmap(m, items)
    return v


def py_str(interp, v):
    if type(v) is Choice:
        return choice_text(interp, interp.split(v.alts, lambda a: py_str(interp, interp.read(a)[0])))
    if is_text(v):
        return v
    if type(v) is Obj:
        if v.cls.is_exc:
            f = v.cls.find('__str__')
            if isinstance(f, PFunc):
                return interp.call_func(f, [v], {})
            a = interp.read(v.d.get('args', ()))[0]
            if type(a) is not tuple or len(a) == 0:
                return ''
            if len(a) == 1:
                return py_repr(interp, a[0]) if v.cls.name == 'KeyError' and type(a[0]) is str else py_str(interp, a[0])
            return py_repr(interp, a)
        r = interp.call_method(v, '__str__', [])
        if r is not ABSENT:
            return r
        if v.cls.enum:
            return '%s.%s' % (v.cls.name, v.d['name'])
        return py_repr(interp, v)
    return py_repr(interp, v)


def py_repr(interp, v):
    t = type(v)
    if t is Choice:
        return choice_text(interp, interp.split(v.alts, lambda a: py_repr(interp, interp.read(a)[0])))
    if t is SB:
        return T.mkmap(interp.m, [('True', interp.m.and_(interp.pc, v.n)),
                                  ('False', interp.m.and_(interp.pc, interp.m.not_(v.n)))])
    if t is SI:
        return T.from_int(interp, v, 'd')
    if t in (int, bool, str, bytes, float) or v is None:
        return repr(v)
    if t is AStr:
        e = T.expand(interp, v)
        if e is None:
            raise Unsupported('repr of text')
        return T.mkmap(interp.m, [(repr(x), g) for x, g in e])
    if t is tuple or t is PList or t is PByteArray:
        items = seq_data(interp, v)
        if type(items) is Choice:
            return interp.split(items.alts, lambda it: _repr_items(interp, t, it))
        return _repr_items(interp, t, items)
    if t is PDict:
        out = ['{']
        for i, (k, val) in enumerate(dict_items(interp, v)):
            out += [', '] * (i > 0) + [py_repr(interp, k), ': ', py_repr(interp, val)]
        return T.concat(out + ['}'])
    if t is Obj:
        r = interp.call_method(v, '__repr__', [])
        if r is not ABSENT:
            return r
        if v.cls.is_exc:
            a = interp.read(v.d.get('args', ()))[0]
            if type(a) is not tuple:
                raise Unsupported('repr of an exception')
            if len(a) == 1:
                return T.concat([v.cls.name + '(', py_repr(interp, a[0]), ')'])
            return T.concat([v.cls.name, py_repr(interp, a)])
        if v.cls.fields:
            out = [v.cls.name + '(']
            for i, f in enumerate(v.cls.fields):
                out += [', '] * (i > 0) + [f + '=', py_repr(interp, interp.read(v.d[f])[0])]
            return T.concat(out + [')'])
        return '<%s object at 0x0>' % v.cls.name
    if t in (PClass, NativeType):
        return "<class '%s'>" % v.name
    return '<%s>' % kind(v)


def _repr_items(interp, t, items):
    o, c = ('(', ')') if t is tuple else ('[', ']')
    out = [o]
    for i, x in enumerate(items):
        out += [', '] * (i > 0) + [py_repr(interp, x)]
    if t is tuple and len(items) == 1:
        out.append(',')
    return T.concat(out + [c])


def format_value(interp, v, spec):
    """format(v, spec)."""
    if type(spec) is AStr:
        e = T.expand(interp, spec)
        if e is None:
            raise Unsupported('symbolic format spec')
        return interp.split([(g, s) for s, g in e], lambda s: format_value(interp, v, s))
    if type(v) is Choice:
        return choice_text(interp, interp.split(v.alts, lambda a: format_value(interp, interp.read(a)[0], spec)))
    if type(v) is IdVal:
        return '0xid'
    if type(v) in (SB, bool):
        if spec == '':
            return py_repr(interp, v)
        v = interp.N.b2i(v)
    if type(v) in (int, float):
        try:
            return format(v, spec)
        except ValueError as e:
            interp.err_always('ValueError', str(e))
    if type(v) is SI:
        try:
            format(0, spec)
        except ValueError as e:
            interp.err_always('ValueError', str(e))
        return T.from_int(interp, v, spec)
    if is_text(v):
        try:
            format('', spec)
        except ValueError as e:
            interp.err_always('ValueError', str(e))
        if type(v) is str:
            return format(v, spec)
        mt = T.SPEC.match(spec)
        fill, align, sign, alt, zero, width, comma, prec, typ = mt.groups()
        if prec:
            raise Unsupported('precision')
        if not width:
            return v
        return T.pad(interp, v, fill or ' ', align if align in ('<', '>', '^') else '<', int(width))
    if type(v) is Obj:
        r = interp.call_method(v, '__format__', [spec])
        if r is not ABSENT:
            return r
    if spec == '':
        return py_str(interp, v)
    interp.err_always('TypeError', 'unsupported format string passed to %s.__format__' % type_name(v))


def str_format(interp, fmt, args, kw):
    out = []
    auto = [0]
    try:
        toks = list(_string.Formatter().parse(fmt))
    except ValueError as e:
        interp.err_always('ValueError', str(e))
    for lit, field, spec, conv in toks:
        out.append(lit)
        if field is None:
            continue
        import _string as _cs
        first, rest = _cs.formatter_field_name_split(field)
        if first == '':
            first = auto[0]
            auto[0] += 1
        if isinstance(first, int):
            if first >= len(args):
                interp.err_always('IndexError', 'Replacement index %d out of range' % first)
            v = args[first]
        else:
            if first not in kw:
                interp.err_always('KeyError', first)
            v = kw[first]
        for is_attr, name in rest:
            v = interp.getattr(v, name) if is_attr else interp.getitem(v, name)
        if conv == 'r':
            v = py_repr(interp, v)
        elif conv == 's':
            v = py_str(interp, v)
        if '{' in spec:
            spec = str_format(interp, spec, args, kw)
        out.append(format_value(interp, v, spec))
    return text_concat(interp, out)


def text_concat(interp, parts):
    """Concatenation where some parts may be a Choice of texts."""
    for i, p in enumerate(parts):
        if type(p) is Choice:
            return interp.split(p.alts, lambda a: text_concat(interp, parts[:i] + [a] + parts[i + 1:]))
    return T.concat(parts)


def percent_format(interp, fmt, args):
    if type(fmt) is AStr:
        e = T.expand(interp, fmt)
        if e is None:
            raise Unsupported('symbolic format')
        return interp.split([(g, s) for s, g in e], lambda s: percent_format(interp, s, args))
    if type(args) is Choice and any(type(a) is tuple for _, a in args.alts):
        return interp.split(args.alts, lambda a: percent_format(interp, fmt, a))
    mapping = args if type(args) is PDict else None
    items = list(args) if type(args) is tuple else [args]
    if type(args) is Obj and args.cls.fields:
        items = [args.d[f] for f in args.cls.fields]
    out = []
    pos = [0]

    def nxt():
        if pos[0] >= len(items):
            interp.err_always('TypeError', 'not enough arguments for format string')
        v = items[pos[0]]
        pos[0] += 1
        return v
    i = 0
    n = len(fmt)
    while i < n:
        c = fmt[i]
        if c != '%':
            j = fmt.find('%', i)
            if j < 0:
                j = n
            out.append(fmt[i:j])
            i = j
            continue
        i += 1
        key = None
        if i < n and fmt[i] == '(':
            j = fmt.index(')', i)
            key = fmt[i + 1:j]
            i = j + 1
        flags = ''
        while i < n and fmt[i] in '-+ #0':
            flags += fmt[i]
            i += 1
        width = ''
        if i < n and fmt[i] == '*':
            w = nxt()
            i += 1
            if type(w) is SI:
                w = interp.N.simplify(w, interp.pc)
            if type(w) is not int:
                raise Unsupported('symbolic width')
            width = str(w)
        while i < n and fmt[i].isdigit():
            width += fmt[i]
            i += 1
        prec = None
        if i < n and fmt[i] == '.':
            i += 1
            prec = ''
            while i < n and fmt[i].isdigit():
                prec += fmt[i]
                i += 1
        while i < n and fmt[i] in 'hlL':
            i += 1
        if i >= n:
            interp.err_always('ValueError', 'incomplete format')
        c = fmt[i]
        i += 1
        if c == '%':
            out.append('%')
            continue
        if key is not None:
            v = interp.getitem(mapping, key)
        else:
            v = nxt()
        out.append(percent_one(interp, c, flags, width, prec, v))
    if mapping is None and pos[0] < len(items) and not (len(items) == 1 and type(args) is PDict):
        interp.err_always('TypeError', 'not all arguments converted during string formatting')
    return text_concat(interp, out)


def percent_one(interp, c, flags, width, prec, v):
    if type(v) is Choice:
        return choice_text(interp, interp.split(v.alts, lambda a: percent_one(
            interp, c, flags, width, prec, interp.read(a)[0])))
    if type(v) is IdVal:
        return '0xid'
    if c in 'sra':
        s = py_str(interp, v) if c == 's' else py_repr(interp, v)
        if type(s) is Choice:
            return interp.split(s.alts, lambda a: percent_one(interp, 's', flags, width, prec, a))
        if prec:
            if type(s) is not str:
                raise Unsupported('precision')
            s = s[:int(prec)]
        if width:
            s = T.pad(interp, s, ' ', '<' if '-' in flags else '>', int(width))
        return s
    if c in 'diuxXo':
        if not isint(v):
            if type(v) is float and c in 'diu':
                v = int(v)
            elif type(v) is Obj:
                r = ABSENT
                if c in 'diu':
                    r = interp.call_method(v, '__int__', [])
                if r is ABSENT:
                    r = interp.call_method(v, '__index__', [])
                if r is ABSENT:
                    interp.err_always('TypeError', '%%%s format: a number is required, not %s' % (c, type_name(v)))
                v = r
            else:
                interp.err_always('TypeError', '%%%s format: a number is required, not %s' % (c, type_name(v)))
        v = interp.N.b2i(v)
        if prec is not None:
            if type(v) is not int:
                if width:
                    raise Unsupported('precision')
                width, flags, prec = prec, flags + '0', None
            else:
                return ('%' + flags + width + '.' + prec + c) % v
        if type(v) is int:
            return ('%' + flags + width + c) % v
        typ = 'd' if c in 'diu' else c
        spec = ''
        if '-' in flags:
            spec += '<'
        elif width and '0' not in flags:
            spec += '>'
        if '+' in flags:
            spec += '+'
        elif ' ' in flags:
            spec += ' '
        if '#' in flags:
            spec += '#'
        if '0' in flags and '-' not in flags and width:
            spec += '0'
        spec += width + typ
        return T.from_int(interp, v, spec)
    if c == 'c':
        if is_text(v):
            return v
        return chr_(interp, v)
    if c in 'fFgGeE':
        if type(v) in (int, float):
            return ('%' + flags + width + ('.' + prec if prec is not None else '') + c) % v
        raise Unsupported('float format')
    interp.err_always('ValueError', "unsupported format character '%s'" % c)


def chr_(interp, v):
    vals = interp.N.values(interp.N.b2i(v), interp.pc, 300)
    if vals is None:
        raise Unsupported('chr')
    return T.mkmap(interp.m, [(chr(x), g) for x, g in vals])


def str_method(interp, s, name):
    if not hasattr(str, name):
        return ABSENT

    def call(interp, args, kw):
        return str_call(interp, s, name, args, kw)
    return Native('str.' + name, call)


def str_call(interp, s, name, args, kw):
    for i, a in enumerate(args):
        if type(a) is Choice and name != 'format' and name != 'join':
            return interp.split(a.alts, lambda x: str_call(interp, s, name, args[:i] + [x] + args[i + 1:], kw))
    if name == 'format':
        if type(s) is AStr:
            e = T.expand(interp, s)
            if e is None:
                raise Unsupported('symbolic format')
            return interp.split([(g, x) for x, g in e], lambda x: str_format(interp, x, args, kw))
        return str_format(interp, s, args, kw)
    if name == 'join':
        items = args[0]
        if type(items) is Choice:
            return interp.split(items.alts, lambda a: str_call(interp, s, name, [a], kw))
        return str_join(interp, s, items)
    args = [interp.N.simplify(a, interp.pc) if type(a) is SI else a for a in args]
    args = [tuple(x) if type(x) is tuple else x for x in args]
    if type(s) is str and all(type(a) in (str, int, bool, tuple) or a is None for a in args) and not kw:
        try:
            r = getattr(s, name)(*args)
        except Exception as e:
            interp.err_always(type(e).__name__, str(e))
        return wrap(interp, r)
    if type(s) is str and kw and all(type(a) in (str, int) for a in list(args) + list(kw.values())):
        try:
            r = getattr(s, name)(*args, **kw)
        except Exception as e:
            interp.err_always(type(e).__name__, str(e))
        return wrap(interp, r)
    if name == 'translate' and type(s) is str and len(args) == 1 and type(args[0]) is PDict:
        tab = {}
        for k, v in dict_items(interp, args[0]):
            if type(k) not in (int, str) or not (v is None or type(v) in (int, str)):
                raise Unsupported('str.translate table')
            tab[k] = v
        return s.translate(tab)
    # abstract receiver
    if name in ('lower', 'upper', 'casefold') and type(s) is AStr:
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif p[0] == 'map':
                out.append(T.mkmap(interp.m, [(getattr(t, name)(), g) for t, g in p[1]]))
            elif (name == 'upper' and 'x' not in p[1]) or (name != 'upper' and 'X' not in p[1]):
                out.append(AStr((p,)))
            else:
                out.append(AStr((('fmt', p[1].replace('x', 'X') if name == 'upper' else p[1].replace('X', 'x'), p[2]),)))
        return T.concat(out)
    alpha = T.alphabet(s)
    if name == 'replace' and type(args[0]) is str and len(args[0]) >= 1:
        if not set(args[0]) & alpha:
            return s
        if len(args[0]) == 1 and len(args) == 2 and type(args[1]) is str and all(isinstance(p, str) or p[0] == 'map' or args[0] not in T.alphabet(
                AStr((p,))) for p in s.parts):
            return T.concat([p.replace(args[0], args[1]) if isinstance(p, str) else AStr((p,)) if p[0] != 'map' else
                             T.mkmap(interp.m, [(t.replace(args[0], args[1]), g) for t, g in p[1]]) for p in s.parts])
    if name in ('strip', 'lstrip', 'rstrip'):
        cs = set(args[0]) if args and args[0] is not None else set(_string.whitespace)
        if not cs & alpha:
            return s
        ps = T.parts_of(s)
        ok = True
        if name in ('strip', 'lstrip') and isinstance(ps[0], str):
            x = ps[0].lstrip(''.join(cs))
            ok = ok and bool(x)
            ps[0] = x
        elif name in ('strip', 'lstrip') and T.first_chars(ps[0]) is None or (
                name in ('strip', 'lstrip') and T.first_chars(ps[0]) & cs):
            ok = False
        if name in ('strip', 'rstrip') and isinstance(ps[-1], str):
            x = ps[-1].rstrip(''.join(cs))
            ok = ok and bool(x)
            ps[-1] = x
        elif name in ('strip', 'rstrip') and T.alphabet(T.norm([ps[-1]])) & cs:
            ok = False
        if ok:
            return T.norm(ps)
    if name == 'count' and type(s) is AStr and type(args[0]) is str and len(args[0]) == 1:
        tot = 0
        ok = True
        for p in s.parts:
            if isinstance(p, str):
                tot = interp.N.add(tot, p.count(args[0]))
            elif p[0] == 'map':
                tot = interp.N.add(tot, interp.N.lin(0, [(g, t.count(args[0])) for t, g in p[1]]))
            elif p[1] == 'b' and args[0] == '1' and interp.N.rng(p[2])[0] >= 0:
                bits = interp.N.bits(p[2], interp.N.rng(p[2])[1].bit_length())
                tot = interp.N.add(tot, interp.N.lin(0, [(b, 1) for b in bits]))
            else:
                ok = False
        if ok:
            return tot
    if name in ('startswith', 'endswith') and type(args[0]) is str:
        pre = args[0]
        ps = T.parts_of(s)
        if name == 'startswith' and ps and isinstance(ps[0], str):
            if len(ps[0]) >= len(pre):
                return ps[0].startswith(pre)
            if not pre.startswith(ps[0]):
                return False
        if name == 'endswith' and ps and isinstance(ps[-1], str):
            if len(ps[-1]) >= len(pre):
                return ps[-1].endswith(pre)
            if not pre.endswith(ps[-1]):
                return False
    if name == 'split' and type(args[0] if args else None) is str and len(args[0]) == 1:
        if args[0] not in alpha:
            return PList([s], interp.pc)
    if name == 'split' and not args and not alpha & set(_string.whitespace):
        return PList([s], interp.pc)
    if name == 'split' and type(s) is AStr:
        # separators only inside constant parts
        sep = args[0] if args else None
        var = set()
        for p in s.parts:
            if not isinstance(p, str):
                var |= T.alphabet(AStr((p,)))
        seps = set(sep) if sep else set(_string.whitespace)
        if not var & seps and (sep is None or len(sep) == 1) and len(args) < 2:
            words, cur = [], []
            for p in s.parts:
                if isinstance(p, str):
                    for ch in p:
                        if ch in seps:
                            words.append(cur)
                            cur = []
                        else:
                            cur.append(ch)
                else:
                    cur.append(p)
            words.append(cur)
            if sep is None:
                words = [w for w in words if w]
            return PList([T.norm(w) for w in words], interp.pc)
    if name in ('ljust', 'rjust', 'center', 'zfill') and type(args[0]) is int:
        if name == 'zfill':
            return T.pad(interp, s, '0', '>', args[0])
        fill = args[1] if len(args) > 1 else ' '
        return T.pad(interp, s, fill, {'ljust': '<', 'rjust': '>', 'center': '^'}[name], args[0])
    # finite expansion
    e = T.expand(interp, s)
    if e is not None:
        def f(x):
            for i, a in enumerate(args):
                if type(a) is AStr or type(a) is SI:
                    if type(a) is AStr:
                        ea = T.expand(interp, a)
                    else:
                        ea = interp.N.values(a, interp.pc)
                    if ea is None:
                        raise Unsupported('str.%s' % name)
                    if len(ea) == 1:
                        return str_call(interp, x, name, args[:i] + [ea[0][0]] + args[i + 1:], kw)
                    return interp.split([(g, y) for y, g in ea],
                                        lambda y: str_call(interp, x, name, args[:i] + [y] + args[i + 1:], kw))
            if type(x) is str and any(type(a) not in (str, int, tuple, bool) and a is not None for a in args):
                interp.err_always('TypeError', 'str.%s argument' % name)
            return str_call(interp, x, name, args, kw)
        if type(s) is str:
            return f(s)
        return choice_text(interp, interp.split([(g, x) for x, g in e], f))
    raise Unsupported('str.%s on abstract text' % name)


def wrap(interp, r):
    if isinstance(r, list):
        return PList([wrap(interp, x) for x in r], interp.pc)
    if isinstance(r, bytearray):
        return PByteArray(list(r), interp.pc)
    return r


def str_join(interp, sep, items):
    vals = []
    for g, v in iterate(interp, items):
        v = interp.read(v)[0]
        if not (is_text(v) or type(v) is Choice):
            interp.err_always('TypeError', 'sequence item: expected str instance, %s found' % type_name(v))
        vals.append((g, v))
    m = interp.m
    definite = all(m.implies(interp.pc, g) for g, _ in vals)
    if definite:
        out = []
        for i, (g, v) in enumerate(vals):
            if i and sep:
                out.append(sep)
            out.append(v)
        return text_concat(interp, out)
    # guarded items: one result per feasible set of present items, when there are few
    combos = [(interp.pc, ())]
    for i, (g, v) in enumerate(vals):
        nxt = []
        for c, pre in combos:
            x = m.and_(c, g)
            y = m.and_(c, m.not_(g))
            if x:
                nxt.append((x, pre + (i,)))
            if y:
                nxt.append((y, pre))
        combos = nxt
        if len(combos) > 64:
            break
    else:
        def one(idx):
            out = []
            for j, i in enumerate(idx):
                if j and sep:
                    out.append(sep)
                out.append(interp.read(vals[i][1])[0])
            return text_concat(interp, out)
        return interp.split(combos, one)
    # otherwise build left to right with "anything so far" guards
    res = ''
    seen = 0
    for g, v in vals:
        p = m.and_(interp.pc, g)
        if p == 0:
            continue
        pc0 = interp.pc
        interp.pc = p
        a = m.and_(p, seen)
        b = m.and_(p, m.not_(seen))
        alts = []
        if a:
            alts.append((a, T.concat([x for x in (sep,)])))
        pre = T.mkmap(m, [(sep, a), ('', b)]) if type(sep) is str else None
        if pre is None:
            raise Unsupported('join')
        add = text_concat(interp, [pre, v])
        interp.pc = pc0
        if p == pc0:
            res = text_concat(interp, [res, add])
        else:
            # add under p, nothing otherwise
            e = T.expand(interp, add, p) if is_text(add) else None
            if e is None:
                raise Unsupported('join of guarded texts')
            opt = T.mkmap(m, [(t, x) for t, x in e] + [('', m.and_(pc0, m.not_(p)))])
            res = text_concat(interp, [res, opt])
        seen = m.or_(seen, g)
    return res


# ----------------------------------------------------------- sequences ----
def seq_data(interp, o):
    """Items as a tuple, or Choice of tuples."""
    t = type(o)
    if t is tuple:
        return o
    if t in (PList, PSet, PByteArray):
        v = interp.read(o.d['data'])[0]
        if v is ABSENT:
            raise DeadPath()
        return v
    if t is PBytes:
        return o.items
    if t is bytes:
        return tuple(o)
    if t is str:
        return tuple(o)
    if t is AStr:
        return tuple(T.chars(interp, o))
    if t is PRange:
        return tuple(range_items(interp, o))
    if t is Obj and o.cls.fields is not None:
        return tuple(interp.read(o.d[f])[0] for f in o.cls.fields)
    return None


def range_items(interp, r):
    N = interp.N
    a, b, c = [N.simplify(x, interp.pc) if type(x) is SI else x for x in (r.start, r.stop, r.step)]
    if type(a) is SI or type(b) is SI or type(c) is SI:
        raise Unsupported('symbolic range as sequence')
    if (b - a) // c > 20000:
        raise Unsupported('huge range')
    return range(a, b, c)


def rewrap(interp, o, items):
    t = type(o)
    if t is PList:
        return PList(items, interp.pc)
    if t is PByteArray:
        return PByteArray(items, interp.pc)
    if t in (bytes, PBytes):
        return mkbytes(items)
    if t in (str, AStr):
        return T.concat(items)
    return tuple(items)


def mkbytes(items):
    try:
        return bytes(items)
    except TypeError:
        return PBytes(items)


def slice_indices(interp, sl, n):
    N, m = interp.N, interp.m
    step = 1 if sl.step is None else to_index(interp, sl.step)
    if type(step) is SI:
        vals = N.values(step, interp.pc, 64)
        if vals is None:
            raise Unsupported('symbolic slice step')
        if len(vals) > 1:
            return interp.split([(g, v) for v, g in vals],
                                lambda v: slice_indices(interp, PSlice(sl.start, sl.stop, v), n))
        step = vals[0][0]
    if step == 0:
        interp.err_always('ValueError', 'slice step cannot be zero')
    start = None if sl.start is None else to_index(interp, sl.start)
    stop = None if sl.stop is None else to_index(interp, sl.stop)
    if type(start) is not SI and type(stop) is not SI and type(n) is not SI:
        return slice(start, stop, step).indices(n)

    def clamp(v, lo, hi):
        neg = N.lt(v, 0)
        v = N.ite(neg, N.add(v, n), v)
        v = N.simplify(v, interp.pc)
        v = N.ite(N.lt(v, lo), lo, v)
        v = N.ite(N.lt(hi, v), hi, v)
        return N.simplify(v, interp.pc)
    if step > 0:
        lo, hi = 0, n
        s = lo if start is None else clamp(start, lo, hi)
        e = hi if stop is None else clamp(stop, lo, hi)
    else:
        lo, hi = -1, N.sub(n, 1)
        s = hi if start is None else clamp(start, lo, hi)
        e = lo if stop is None else clamp(stop, lo, hi)
    return (s, e, step)


def seq_index(interp, o, items, k, what='sequence'):
    """items[k] for a tuple of items and an abstract integer."""
    N, m = interp.N, interp.m
    n = len(items)
    if type(k) is SI:
        k = N.simplify(k, interp.pc)
    if type(k) is not SI:
        if not -n <= k < n:
            interp.err_always('IndexError', '%s index out of range' % what)
        return interp.read(items[k])[0]
    res = []
    if n > 600:
        vals = N.values(k, interp.pc, 600)
        if vals is None:
            raise Unsupported('wide index')
    else:
        vals = N.values(k, interp.pc, 300)
        if vals is None:
            vals = []
            for i in range(-n, n):
                g = m.and_(interp.pc, N.eq(k, i))
                if g:
                    vals.append((i, g))
    cov = 0
    for v, g in vals:
        if -n <= v < n:
            res.append((g, items[v]))
            cov = m.or_(cov, g)
    bad = m.and_(interp.pc, m.not_(cov))
    if bad:
        interp.err('IndexError', '%s index out of range' % what, bad)
    return interp.merge_list(res)


def getitem(interp, o, k):
    t = type(o)
    if t is Choice:
        return interp.split(o.alts, lambda a: getitem(interp, interp.read(a)[0], k))
    if type(k) is Choice and t is not PDict:
        return interp.split(k.alts, lambda a: getitem(interp, o, interp.read(a)[0]))
    if t is Obj:
        f = o.cls.find('__getitem__')
        if f is not ABSENT:
            return interp.call(interp.bind(f, o), [k], {})
        if o.cls.fields is None:
            interp.err_always('TypeError', "'%s' object is not subscriptable" % type_name(o))
    if t is PDict:
        return dict_get(interp, o, k, lambda: dict_missing(interp, o, k))
    if t is PClass and o.enum:
        for x in o.members:
            if x.d['name'] == k:
                return x
        interp.err_always('KeyError', k)
    if isinstance(o, NativeObj):
        f = o.pget(interp, '__getitem__')
        if f is not ABSENT:
            return interp.call(f, [k], {})
    if t is PIter or t is PSet:
        interp.err_always('TypeError', "'%s' object is not subscriptable" % type_name(o))
    if t is PRange and type(k) is not PSlice:
        items = seq_data(interp, o)
        return seq_index(interp, o, items, to_index(interp, k), 'range')
    if t is AStr:
        r = T.subtext(interp, o, k)
        if r is not None:
            return r
    items = seq_data(interp, o)
    if items is None:
        interp.err_always('TypeError', "'%s' object is not subscriptable" % type_name(o))
    if type(items) is Choice:
        return interp.split(items.alts, lambda it: _getitem_seq(interp, o, it, k))
    return _getitem_seq(interp, o, items, k)


def _getitem_seq(interp, o, items, k):
    N = interp.N
    if type(k) is PSlice:
        s, e, st = unpack3(interp, slice_indices(interp, k, len(items)))
        if type(s) is not SI and type(e) is not SI:
            return rewrap(interp, o, items[slice_fix(s, e, st)])
        # enumerate the bounds
        def on_start(sv):
            ev = N.values(e, interp.pc, 400) if type(e) is SI else [(e, interp.pc)]
            if ev is None:
                raise Unsupported('wide slice')
            return interp.split([(g, v) for v, g in ev], lambda x: rewrap(interp, o, items[slice_fix(sv, x, st)]))
        sv = N.values(s, interp.pc, 400) if type(s) is SI else [(s, interp.pc)]
        if sv is None:
            raise Unsupported('wide slice')
        return interp.split([(g, v) for v, g in sv], on_start)
    if is_text(k) or k is None or type(k) in (tuple, float):
        interp.err_always('TypeError', 'indices must be integers or slices, not %s' % type_name(k))
    return seq_index(interp, o, items, to_index(interp, k), kind(o))


def unpack3(interp, t):
    if type(t) is Choice:
        raise Unsupported('symbolic slice step')
    return t


def slice_fix(s, e, st):
    if st < 0:
        return slice(s if s >= 0 else None, e if e >= 0 else None, st) if s >= 0 else slice(0, 0)
    return slice(s, e, st)


def set_data(interp, o, items):
    interp.write(o.d, 'data', tuple(items), o.birth)


def with_data(interp, o, f):
    """Run f(tuple) per alternative length of a mutable sequence."""
    d = seq_data(interp, o)
    if type(d) is Choice:
        return interp.split(d.alts, f)
    return f(d)


def byte_check(interp, v):
    if type(v) is Choice:
        return interp.split(v.alts, lambda a: byte_check(interp, a))
    v = to_index(interp, v)
    if type(v) is SI:
        m, N = interp.m, interp.N
        lo, hi = N.rng(v)
        if lo < 0 or hi > 255:
            bad = m.or_(N.lt(v, 0), N.lt(255, v))
            interp.err('ValueError', 'byte must be in range(0, 256)', bad)
            v = N.mod2(N.simplify(v, interp.pc), 8)
        return v
    if not 0 <= v <= 255:
        interp.err_always('ValueError', 'byte must be in range(0, 256)')
    return v


def setitem(interp, o, k, v):
    t = type(o)
    N, m = interp.N, interp.m
    if t is Choice:
        interp.split(o.alts, lambda a: setitem(interp, a, k, v))
        return
    if type(k) is Choice:
        interp.split(k.alts, lambda a: setitem(interp, o, a, v))
        return
    if t is Obj:
        f = o.cls.find('__setitem__')
        if f is ABSENT:
            interp.err_always('TypeError', "'%s' object does not support item assignment" % type_name(o))
        interp.call(interp.bind(f, o), [k, v], {})
        return
    if t is PDict:
        dict_set(interp, o, k, v)
        return
    if isinstance(o, NativeObj):
        f = o.pget(interp, '__setitem__')
        if f is not ABSENT:
            interp.call(f, [k, v], {})
            return
    if t not in (PList, PByteArray):
        interp.err_always('TypeError', "'%s' object does not support item assignment" % type_name(o))
    if type(k) is PSlice:
        if type(v) is Choice:
            interp.split(v.alts, lambda a: setitem(interp, o, k, a))
            return
        if t is PByteArray and isint(v):
            interp.err_always('TypeError', 'can assign only bytes, buffers, or iterables of ints')
        new = iter_items(interp, v)

        def f(new):
            if t is PByteArray:
                new = tuple(byte_check(interp, x) for x in new)

            def g(items):
                s, e, st = unpack3(interp, slice_indices(interp, k, len(items)))
                sv = N.values(s, interp.pc, 300) if type(s) is SI else [(s, interp.pc)]
                if sv is None:
                    raise Unsupported('wide slice assignment')

                def on(sx):
                    ev = N.values(e, interp.pc, 300) if type(e) is SI else [(e, interp.pc)]
                    if ev is None:
                        raise Unsupported('wide slice assignment')

                    def on2(ex):
                        l = list(items)
                        if st != 1:
                            try:
                                l[slice_fix(sx, ex, st)] = list(new)
                            except ValueError as err:
                                interp.err_always('ValueError', str(err))
                        else:
                            l[sx:max(sx, ex)] = list(new)
                        set_data(interp, o, l)
                    interp.split([(g2, x) for x, g2 in ev], on2)
                interp.split([(g2, x) for x, g2 in sv], on)
            with_data(interp, o, g)
        if type(new) is Choice:
            interp.split(new.alts, f)
        else:
            f(new)
        return
    if t is PByteArray:
        v = byte_check(interp, v)
    k = to_index(interp, k)
    if type(k) is SI:
        k = N.simplify(k, interp.pc)

    def f(items):
        n = len(items)
        if type(k) is not SI:
            if not -n <= k < n:
                interp.err_always('IndexError', 'assignment index out of range')
            l = list(items)
            l[k] = v
            set_data(interp, o, l)
            return
        vals = N.values(k, interp.pc, 600)
        if vals is None:
            vals = [(i, m.and_(interp.pc, N.eq(k, i))) for i in range(-n, n)]
        l = list(items)
        cov = 0
        for i, g in vals:
            if g and -n <= i < n:
                cov = m.or_(cov, g)
                l[i] = interp.merge(g, v, l[i])
        bad = m.and_(interp.pc, m.not_(cov))
        if bad:
            interp.err('IndexError', 'assignment index out of range', bad)
        set_data(interp, o, l)
    with_data(interp, o, f)


def delitem(interp, o, k):
    if type(o) is Choice:
        interp.split(o.alts, lambda a: delitem(interp, a, k))
        return
    if type(o) is Obj:
        f = o.cls.find('__delitem__')
        if f is ABSENT:
            interp.err_always('TypeError', "'%s' object doesn't support item deletion" % type_name(o))
        interp.call(interp.bind(f, o), [k], {})
        return
    if type(o) is PDict:
        dict_get(interp, o, k, lambda: interp.err_always('KeyError', ''))
        dict_drop(interp, o, k)
        return
    if type(o) in (PList, PByteArray):
        def f(items):
            l = list(items)
            if type(k) is PSlice:
                s, e, st = unpack3(interp, slice_indices(interp, k, len(l)))
                if type(s) is SI or type(e) is SI:
                    raise Unsupported('symbolic slice deletion')
                del l[slice_fix(s, e, st)]
            else:
                i = to_index(interp, k)
                if type(i) is SI:
                    raise Unsupported('symbolic deletion')
                if not -len(l) <= i < len(l):
                    interp.err_always('IndexError', 'index out of range')
                del l[i]
            set_data(interp, o, l)
        with_data(interp, o, f)
        return
    interp.err_always('TypeError', "object doesn't support item deletion")


def iter_items(interp, v):
    """Tuple of items (or Choice of tuples) of any iterable of definite length per alternative."""
    t = type(v)
    if t in (PList, PSet, PByteArray, tuple, bytes, PBytes, str, AStr):
        return seq_data(interp, v)
    if t is Choice:
        return interp.split(v.alts, lambda a: iter_items(interp, a))
    m = interp.m
    got = list(iterate(interp, v))
    if all(m.implies(interp.pc, g) for g, _ in got):
        return tuple(x for _, x in got)
    l = interp.list_from(got)
    return seq_data(interp, l)


def list_append(interp, l, v):
    with_data(interp, l, lambda items: set_data(interp, l, items + (v,)))


def set_add(interp, s, v):
    if type(v) is Choice:
        interp.split(v.alts, lambda a: set_add(interp, s, a))
        return

    def f(items):
        n = interp.m.any_([interp.truth(compare(interp, 'Eq', x, v)) if type(x) is type(v) or (isint(x) and isint(v))
                           else 0 for x in items])
        n = interp.m.and_(n, interp.pc)
        if n == 0:
            set_data(interp, s, items + (v,))
        elif n != interp.pc:
            pc0 = interp.pc
            interp.pc = interp.m.and_(pc0, interp.m.not_(n))
            set_data(interp, s, items + (v,))
            interp.pc = pc0
    with_data(interp, s, f)


# ------------------------------------------------------------------ dicts ----
def key_of(interp, k):
    """Canonical hashable key, or None when symbolic."""
    t = type(k)
    if t is SI:
        k = interp.N.simplify(k, interp.pc)
        t = type(k)
    if t is SB:
        n = interp.m.simplify(k.n, interp.pc)
        if n > 1:
            return None
        return ('i', n)
    if t is int or t is bool:
        return ('i', int(k))
    if t is str:
        return ('s', k)
    if t is AStr or t is SI or t is Choice:
        return None
    if k is None:
        return ('n',)
    if t is tuple:
        ks = tuple(key_of(interp, x) for x in k)
        if None in ks:
            return None
        return ('t', ks)
    if t is float:
        return ('i', int(k)) if k == int(k) else ('f', k)
    if t is bytes:
        return ('b', k)
    if t is PBytes:
        return None
    if t is Obj:
        if k.cls.enum and k.cls.find('__index__') is not ABSENT:
            return key_of(interp, k.d['value'])
        if k.cls.fields is not None:
            ks = tuple(key_of(interp, interp.read(k.d[f])[0]) for f in k.cls.fields)
            return None if None in ks else ('t', ks)
        if k.cls.find('__eq__') is not ABSENT:
            if k.cls.find('__hash__') is ABSENT:
                interp.err_always('TypeError', "unhashable type: '%s'" % k.cls.name)
            raise Unsupported('dictionary key with user-defined equality')
        return ('o', id(k))
    if t in (PClass, NativeType, PFunc, Native, PModule):
        return ('o', id(k))
    if t is PBound:
        return ('m', id(k.self), id(k.func))
    if t in (PList, PDict, PSet, PByteArray, PSlice):
        interp.err_always('TypeError', "unhashable type: '%s'" % type_name(k))
    raise Unsupported('dictionary key %s' % t.__name__)


SYMS = ('y', 'keys')         # in PDict.k: the dictionary has entries under symbolic keys


def key_matches(interp, d, k):
    """[(guard, canonical key)] of entries equal to symbolic key k."""
    N, m = interp.N, interp.m
    out = []
    if SYMS in d.k:
        for kk in d.d:
            g = interp.pc
            if kk[0] == 'y':
                g = m.and_(g, interp.truth(interp.compare('Eq', k, d.k[kk])))
                if g:
                    out.append((g, kk))
        kk = key_of(interp, k)
        if kk is not None:
            if kk in d.d:
                out.append((interp.pc, kk))
            return out
    if type(k) is SB:
        k = N.b2i(k)
    if type(k) is SI:
        vals = N.values(k, interp.pc, 64)
        if vals is not None:
            for v, g in vals:
                if ('i', v) in d.d:
                    out.append((g, ('i', v)))
            return out
        for kk in d.d:
            if kk[0] == 'i':
                g = m.and_(interp.pc, N.eq(k, kk[1]))
                if g:
                    out.append((g, kk))
        return out
    if type(k) is AStr:
        e = T.expand(interp, k)
        if e is not None:
            for v, g in e:
                if ('s', v) in d.d:
                    out.append((g, ('s', v)))
            return out
        for kk in d.d:
            if kk[0] == 's':
                n = T.eq(interp, k, kk[1])
                if n is None:
                    raise Unsupported('text key')
                g = m.and_(interp.pc, n)
                if g:
                    out.append((g, kk))
        return out
    if type(k) is tuple:
        for kk in d.d:
            if kk[0] == 't' and len(kk[1]) == len(k):
                orig = d.k[kk]
                g = interp.pc
                for x, y in zip(k, orig):
                    g = m.and_(g, interp.truth(interp.compare('Eq', x, y)))
                if g:
                    out.append((g, kk))
        return out
    if type(k) is PBytes:
        for kk in d.d:
            if kk[0] == 'b':
                g = m.and_(interp.pc, eq_node(interp, k, d.k[kk]))
                if g:
                    out.append((g, kk))
        return out
    raise Unsupported('symbolic dictionary key')


def dict_get(interp, o, k, missing):
    m = interp.m
    if type(k) is Choice:
        return interp.split(k.alts, lambda a: dict_get(interp, o, interp.read(a)[0], missing))
    kk = key_of(interp, k)
    if kk is not None and SYMS not in o.k:
        raw = o.d.get(kk, ABSENT)
        if raw is ABSENT:
            return missing()
        v, miss = interp.read(raw)
        if not miss:
            return v
        if v is ABSENT:
            return missing()
        return interp.branch(m.not_(miss), lambda: interp.read(v)[0], missing)
    alts = []
    cov = 0
    for g, c in key_matches(interp, o, k):
        raw = o.d[c]
        v, miss = interp.read(raw, m.and_(interp.pc, g))
        g = m.and_(g, m.not_(miss))
        if g and v is not ABSENT:
            alts.append((g, v))
            cov = m.or_(cov, g)
    rest = m.and_(interp.pc, m.not_(cov))
    if not rest:
        return interp.merge_list(alts)
    if not alts:
        return missing()
    return interp.branch(cov, lambda: interp.merge_list(alts), missing)


def dict_missing(interp, o, k):
    if o.default is not None:
        v = interp.call(o.default, [], {})
        dict_set(interp, o, k, v)
        return v
    e = interp.make_exc('KeyError')
    e.d['args'] = (k,)
    interp.raise_obj(e)
    raise DeadPath()


def dict_set(interp, o, k, v):
    m, N = interp.m, interp.N
    if type(k) is Choice:
        interp.split(k.alts, lambda a: dict_set(interp, o, a, v))
        return
    kk = key_of(interp, k)
    if o.owner is not None:
        if type(k) is not str:
            raise Unsupported('__dict__ with a key that is not known text')
        interp.write(o.owner.d, k, v, o.owner.birth)
    if kk is not None and SYMS not in o.k:
        if kk not in o.k:
            if interp.journal is not None:
                interp.journal.append((o.k, kk, ABSENT))
            o.k[kk] = k
        interp.write(o.d, kk, v, o.birth)
        return
    ms = []
    for g, c in key_matches(interp, o, k):
        raw = o.d[c]
        if type(raw) is Choice:
            g = m.and_(g, m.any_([x for x, _ in raw.alts]))
        if g and raw is not ABSENT:
            ms.append((g, c))
    cov = m.any_([g for g, _ in ms])
    pc0 = interp.pc
    for g, c in ms:
        interp.pc = g
        interp.write(o.d, c, v, o.birth)
    interp.pc = m.and_(pc0, m.not_(cov))
    if interp.pc:
        vals = None
        if kk is not None:
            pass
        elif type(k) is SI:
            vals = N.values(k, interp.pc, 300)
        elif type(k) is AStr:
            vals = T.expand(interp, k, interp.pc, 300)
        if kk is not None:
            new_entry(interp, o, kk, k, v)
        elif vals is None:
            if SYMS not in o.k:
                if interp.journal is not None:
                    interp.journal.append((o.k, SYMS, ABSENT))
                o.k[SYMS] = None
            new_entry(interp, o, ('y', len(o.k)), k, v)
        for x, g in vals or ():
            interp.pc = g
            dict_set(interp, o, x, v)
    interp.pc = pc0


def dict_drop(interp, o, k):
    if type(k) is Choice:
        interp.split(k.alts, lambda a: dict_drop(interp, o, interp.read(a)[0]))
        return
    if o.owner is not None:
        raise Unsupported('removal from __dict__')
    kk = key_of(interp, k)
    if kk is not None and SYMS not in o.k:
        if kk in o.d:
            interp.write(o.d, kk, ABSENT, o.birth)
        return
    pc0 = interp.pc
    for g, c in key_matches(interp, o, k):
        interp.pc = interp.m.and_(pc0, g)
        if interp.pc:
            interp.write(o.d, c, ABSENT, o.birth)
    interp.pc = pc0


def new_entry(interp, o, kk, k, v):
    if kk not in o.k:
        if interp.journal is not None:
            interp.journal.append((o.k, kk, ABSENT))
        o.k[kk] = k
    interp.write(o.d, kk, v, o.birth)


def dict_contains(interp, o, k):
    m = interp.m
    if type(k) is Choice:
        return m.any_([m.and_(g, dict_contains_under(interp, o, a, g)) for g, a in k.alts])
    kk = key_of(interp, k)
    if kk is not None and SYMS not in o.k:
        raw = o.d.get(kk, ABSENT)
        if raw is ABSENT:
            return 0
        if type(raw) is Choice:
            return m.any_([g for g, _ in raw.alts])
        return 1
    r = 0
    for g, c in key_matches(interp, o, k):
        raw = o.d[c]
        if type(raw) is Choice:
            g = m.and_(g, m.any_([x for x, _ in raw.alts]))
        r = m.or_(r, g)
    return r


def dict_contains_under(interp, o, a, g):
    pc0 = interp.pc
    interp.pc = interp.m.and_(pc0, g)
    if interp.pc == 0:
        interp.pc = pc0
        return 0
    try:
        return dict_contains(interp, o, a)
    finally:
        interp.pc = pc0


def dict_items(interp, o):
    """[(key, value)] of a dictionary whose key set is definite."""
    out = []
    for kk, raw in list(o.d.items()):
        v, miss = interp.read(raw)
        if v is ABSENT:
            continue
        if miss:
            raise Unsupported('dictionary with uncertain keys')
        out.append((o.k[kk], v))
    return out


def dict_update(interp, d, other):
    if type(other) is PDict:
        for k, v in dict_items(interp, other):
            dict_set(interp, d, k, v)
        return
    if type(other) is Choice:
        interp.split(other.alts, lambda a: dict_update(interp, d, a))
        return
    for g, kv in iterate(interp, other):
        if not interp.m.implies(interp.pc, g):
            raise Unsupported('guarded update')
        k, v = interp.sequence(kv)
        dict_set(interp, d, k, v)


def kw_update(interp, kw, d):
    if type(d) is not PDict:
        if isinstance(d, Obj) or type(d) is Choice:
            raise Unsupported('** of object')
        interp.err_always('TypeError', 'argument after ** must be a mapping')
    for k, v in dict_items(interp, d):
        if type(k) is not str:
            interp.err_always('TypeError', 'keywords must be strings')
        kw[k] = v


# -------------------------------------------------------------- iteration ----
def take(interp, it, j):
    """Consume item j of an iterator in the states of pc: (guard, value) or None."""
    m = interp.m
    g, x = it.items[j]
    pc = interp.pc
    if g == 0 or m.and_(g, pc) == 0:
        return None
    keep = 0 if pc == 1 else m.and_(g, m.not_(pc))
    it.items[j] = (keep, x)
    if keep == 0 and j == it.pos:
        it.pos += 1
    return g, x


def iterate(interp, v):
    t = type(v)
    m = interp.m
    if t is PIter:
        if v.isgen == 'count':
            raise Unsupported('iteration of a counter')
        j = v.pos
        while j < len(v.items):
            x = take(interp, v, j)
            if x is not None:
                yield x
            j += 1
        tail, v.tail = v.tail, []
        for g, e in tail:
            interp.raise_obj(e, g)
        return
    if t in (tuple, bytes, PBytes, str, AStr):
        for x in seq_data(interp, v):
            yield 1, x
        return
    if t in (PList, PSet, PByteArray):
        d = seq_data(interp, v)
        if type(d) is Choice:
            for x in iter_choice(interp, d.alts):
                yield x
            return
        if t is PSet:
            for x in d:
                yield 1, x
            return
        j = 0
        while j < len(d):
            yield 1, d[j]
            j += 1
            now = v.d['data']
            if now is not d:
                # changed by the loop
                now = seq_data(interp, v)
                if type(now) is Choice:
                    raise Unsupported('sequence changed during iteration')
                d = now
        return
    if t is PRange:
        for x in iter_range(interp, v):
            yield x
        return
    if t is PDict:
        for kk, raw in list(v.d.items()):
            if type(raw) is Choice:
                g = m.any_([x for x, _ in raw.alts])
                if m.and_(g, interp.pc):
                    yield g, v.k[kk]
            elif raw is not ABSENT:
                yield 1, v.k[kk]
        return
    if t is Choice:
        seqs = []
        for g, a in v.alts:
            if m.and_(g, interp.pc) == 0:
                continue
            d = None
            if type(a) in (tuple, PList, PByteArray, bytes, PBytes, str):
                d = seq_data(interp, a)
            if d is None or type(d) is Choice:
                d = None
                break
            seqs.append((g, d))
        else:
            for x in iter_choice(interp, seqs):
                yield x
            return
        for g, a in v.alts:
            if m.and_(g, interp.pc) == 0:
                continue
            for h, x in iterate_under(interp, a, g):
                yield m.and_(g, h), x
        return
    if t is Obj:
        if v.cls.fields is not None:
            for f in v.cls.fields:
                yield 1, interp.read(v.d[f])[0]
            return
        f = v.cls.find('__iter__')
        if f is not ABSENT:
            r = interp.call(interp.bind(f, v), [], {})
            for ro in ([x for _, x in r.alts] if type(r) is Choice else [r]):
                if type(ro) is Obj and type(r) is Choice:
                    raise Unsupported('several iterator objects')
            for x in (iter_next(interp, r) if type(r) is Obj else iterate(interp, r)):
                yield x
            return
        f = v.cls.find('__getitem__')
        if f is not ABSENT:
            # old sequence protocol: until IndexError
            for x in iter_getitem(interp, v, f):
                yield x
            return
    if t is PClass and v.enum:
        for x in v.members:
            yield 1, x
        return
    if isinstance(v, NativeObj):
        f = v.pget(interp, '__iter__')
        if f is not ABSENT:
            for x in iterate(interp, interp.call(f, [], {})):
                yield x
            return
    interp.err_always('TypeError', "'%s' object is not iterable" % type_name(v))


def iter_next(interp, o):
    """Items of an object with __next__, until StopIteration."""
    m = interp.m
    if o.cls.find('__next__') is ABSENT:
        interp.err_always('TypeError', 'iter() returned non-iterator')
    done = 0
    n = 0
    while True:
        pc0 = interp.pc
        p = m.and_(pc0, m.not_(done))
        if p == 0:
            return
        interp.pc = p
        ctx = []
        interp.hs.append(ctx)
        try:
            try:
                v = interp.call_method(o, '__next__', [])
                live = interp.pc
            except DeadPath:
                live = 0
        finally:
            interp.hs.pop()
        lost = 0
        for g, e in ctx:
            if interp.builtins['StopIteration'] in e.cls.mro:
                done = m.or_(done, g)
            else:
                lost = m.or_(lost, g)
                interp.hs[-1].append((g, e))
        interp.pc = m.and_(pc0, m.not_(lost))
        if interp.pc == 0:
            raise DeadPath()
        if live:
            yield live, v
        n += 1
        if n > interp.LOOP_CAP:
            raise Unsupported('iterator bound')


def iterate_under(interp, a, g):
    pc0 = interp.pc
    interp.pc = interp.m.and_(pc0, g)
    if interp.pc == 0:
        interp.pc = pc0
        return []
    try:
        r = list(iterate(interp, a))
    except DeadPath:
        r = []
        interp.pc = 0
    lost = interp.m.and_(interp.m.and_(pc0, g), interp.m.not_(interp.pc))
    interp.pc = interp.m.and_(pc0, interp.m.not_(lost))
    if interp.pc == 0:
        raise DeadPath()
    return r


def iter_choice(interp, seqs):
    """Lock-step iteration of alternatives [(guard, items)]."""
    m = interp.m
    ident = any(type(x) in (Obj, PClass, PFunc) for _, s in seqs for x in s)
    if ident:
        for g, s in seqs:
            for x in s:
                yield g, x
        return
    n = max([len(s) for _, s in seqs] or [0])
    for i in range(n):
        alts = [(g, s[i]) for g, s in seqs if i < len(s)]
        guard = m.any_([g for g, _ in alts])
        if m.and_(guard, interp.pc) == 0:
            return
        pc0 = interp.pc
        interp.pc = m.and_(pc0, guard)
        v = interp.merge_list(alts)
        interp.pc = pc0
        yield guard, v


def iter_range(interp, r):
    N, m = interp.N, interp.m
    a, b, c = [N.simplify(x, interp.pc) if type(x) is SI else x for x in (r.start, r.stop, r.step)]
    if type(c) is SI:
        raise Unsupported('symbolic range step')
    if type(a) is not SI and type(b) is not SI:
        if c > 0 and (b - a) // c > 20000:
            raise Unsupported('huge range')
        for x in range(a, b, c):
            yield 1, x
        return
    i = a
    n = 0
    while True:
        g = N.lt(i, b) if c > 0 else N.lt(b, i)
        if m.and_(g, interp.pc) == 0:
            return
        yield g, i
        i = N.add(i, c)
        n += 1
        if n > interp.LOOP_CAP:
            raise Unsupported('symbolic range bound')


def iter_getitem(interp, v, f):
    raise Unsupported('sequence-protocol iteration')


def truth(interp, v):
    t = type(v)
    m = interp.m
    if t is AStr:
        n = T.length(interp, v) if all(isinstance(p, str) or p[0] == 'map' for p in v.parts) else 1
        return m.not_(interp.N.eq(n, 0))
    if t in (PList, PSet, PByteArray):
        d = seq_data(interp, v)
        if type(d) is Choice:
            return m.any_([g for g, x in d.alts if x])
        return 1 if d else 0
    if t is PBytes:
        return 1 if v.items else 0
    if t is PDict:
        r = 0
        for raw in v.d.values():
            if raw is ABSENT:
                continue
            if type(raw) is Choice:
                r = m.or_(r, m.any_([g for g, _ in raw.alts]))
            else:
                return 1
        return r
    if t is PRange:
        if r_concrete(v):
            return 1 if len(range(v.start, v.stop, v.step)) else 0
        return interp.N.lt(v.start, v.stop) if v.step > 0 else interp.N.lt(v.stop, v.start)
    return 1


def r_concrete(r):
    return all(type(x) is int for x in (r.start, r.stop, r.step))


def length(interp, v):
    t = type(v)
    if t is Choice:
        return interp.split(v.alts, lambda a: length(interp, a))
    if t is str or t is bytes:
        return len(v)
    if t is AStr:
        return T.length(interp, v)
    if t is PRange:
        if r_concrete(v):
            return len(range(v.start, v.stop, v.step))
        if v.step == 1:
            d = interp.N.sub(v.stop, v.start)
            return interp.N.ite(interp.N.lt(d, 0), 0, d)
        raise Unsupported('length of symbolic range')
    if t is PDict:
        n = 0
        for raw in v.d.values():
            if raw is ABSENT:
                continue
            if type(raw) is Choice:
                n = interp.N.add(n, interp.N.lin(0, [(interp.m.any_([g for g, _ in raw.alts]), 1)]))
            else:
                n = interp.N.add(n, 1)
        return n
    if t is Obj:
        r = interp.call_method(v, '__len__', [])
        if r is not ABSENT:
            r = to_index(interp, r)
            interp.err('ValueError', '__len__() should return >= 0', interp.N.lt(r, 0))
            return r
        if v.cls.fields is not None:
            return len(v.cls.fields)
    if t is PClass and v.enum:
        return len(v.members)
    if t in (tuple, PList, PSet, PByteArray, PBytes):
        d = seq_data(interp, v)
        if type(d) is Choice:
            return interp.N.simplify(interp.N.b2i(interp.split(d.alts, lambda x: len(x))), interp.pc)
        return len(d)
    interp.err_always('TypeError', "object of type '%s' has no len()" % type_name(v))


# ------------------------------------------------------------- operators ----
def binop(interp, op, a, b, inplace=False):
    ta, tb = type(a), type(b)
    N, m = interp.N, interp.m
    if ta is MonoQ and tb in (int, float):
        return a.then(op, b)
    if ta in (FloatQ, MonoQ) or tb in (FloatQ, MonoQ):
        if (tb if ta in (FloatQ, MonoQ) else ta) in (int, SI, float, bool, SB, FloatQ, MonoQ):
            raise Unsupported('float arithmetic')
    if ta in (float, int) and tb in (float, int):
        try:
            return {'+': _operator.add, '-': _operator.sub, '*': _operator.mul, '/': _operator.truediv,
                    '//': _operator.floordiv, '%': _operator.mod, '**': _operator.pow}[op](a, b)
        except ZeroDivisionError:
            interp.err_always('ZeroDivisionError', 'division by zero')
        except KeyError:
            interp.err_always('TypeError', 'unsupported operand')
    if is_text(a):
        if op == '%':
            return percent_format(interp, a, b)
        if op == '+':
            if is_text(b):
                return T.concat([a, b])
            interp.err_always('TypeError', 'can only concatenate str (not "%s") to str' % type_name(b))
    if op == '*':
        for s, k in ((a, b), (b, a)):
            if isint(k) and (is_text(s) or type(s) in (tuple, PList, bytes, PBytes, PByteArray)):
                return repeat(interp, s, N.b2i(k))
    if op == '+':
        if ta is tuple and tb is tuple:
            return a + b
        if ta is PList:
            if inplace:
                if tb is not PList and tb is not tuple and tb is not PIter and tb is not PRange:
                    interp.err_always('TypeError', 'not iterable') if isint(b) or b is None else None
                extend(interp, a, b)
                return a
            if tb is PList:
                return cat_seq(interp, a, b)
        if ta in (bytes, PBytes, PByteArray) and tb in (bytes, PBytes, PByteArray):
            if inplace and ta is PByteArray:
                extend(interp, a, b)
                return a
            return cat_seq(interp, a, b)
    if op == '|' and ta is PDict and tb is PDict:
        r = a
        if not inplace:
            r = PDict(interp.pc, a.default)
            dict_update(interp, r, a)
        dict_update(interp, r, b)
        return r
    if ta is PSet and tb is PSet and op in '|&-^':
        A, B = seq_data(interp, a), seq_data(interp, b)
        if type(A) is tuple and type(B) is tuple:
            ka = [key_of(interp, x) for x in A]
            kb = [key_of(interp, x) for x in B]
            if None not in ka and None not in kb:
                if op == '|':
                    r = A + tuple(x for x, k in zip(B, kb) if k not in ka)
                elif op == '&':
                    r = tuple(x for x, k in zip(A, ka) if k in kb)
                elif op == '-':
                    r = tuple(x for x, k in zip(A, ka) if k not in kb)
                else:
                    r = tuple(x for x, k in zip(A, ka) if k not in kb) + tuple(
                        x for x, k in zip(B, kb) if k not in ka)
                return PSet(r, interp.pc)
        raise Unsupported('set operation')
    if ta is PSet and tb is PSet:
        raise Unsupported('set operation')
    interp.err_always('TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (op, type_name(a), type_name(b)))


def cat_seq(interp, a, b):
    A, B = seq_data(interp, a), seq_data(interp, b)

    def f(x):
        if type(B) is Choice:
            return interp.split(B.alts, lambda y: x + y)
        return x + B
    r = interp.split(A.alts, f) if type(A) is Choice else f(A)
    if type(r) is Choice:
        o = rewrap(interp, a, ())
        if not isinstance(o, PList):
            return interp.split(r.alts, lambda t: rewrap(interp, a, t))
        o.d['data'] = r
        return o
    return rewrap(interp, a, r)


def repeat(interp, s, k):
    N = interp.N
    if type(k) is SI:
        vals = N.values(k, interp.pc, 400)
        if vals is None:
            raise Unsupported('repetition by unbounded count')
        if is_text(s):
            if type(s) is str:
                return T.mkmap(interp.m, [(s * v, g) for v, g in vals])
        if isinstance(s, PList):
            d = seq_data(interp, s)
            if type(d) is tuple:
                o = rewrap(interp, s, ())
                o.d['data'] = interp.mkchoice([(g, d * max(0, v)) for v, g in vals]) if len(vals) > 1 else d * max(
                    0, vals[0][0])
                return o
        return interp.split([(g, v) for v, g in vals], lambda v: repeat(interp, s, v))
    if k > 100000:
        raise Unsupported('huge repetition')
    if type(s) is str:
        return s * k
    if type(s) is AStr:
        return T.concat([s] * max(0, k))
    d = seq_data(interp, s)
    if type(d) is Choice:
        return interp.split(d.alts, lambda t: rewrap(interp, s, t * k))
    return rewrap(interp, s, d * k)


def extend(interp, l, v):
    items = iter_items(interp, v)

    def f(it):
        if type(l) is PByteArray:
            it = tuple(byte_check(interp, x) for x in it)
        with_data(interp, l, lambda d: set_data(interp, l, d + it))
    if type(items) is Choice:
        interp.split(items.alts, f)
    else:
        f(items)


def plain_nt(v, name):
    """Not an object, or a named tuple which leaves this comparison to tuple."""
    return type(v) is not Obj or v.cls.fields is not None and v.cls.find(name) is ABSENT


def nt_tuple(interp, v):
    return tuple(interp.read(v.d[f])[0] for f in v.cls.fields) if type(v) is Obj else v


def eq_node(interp, a, b):
    m, N = interp.m, interp.N
    if type(a) in (FloatQ, MonoQ) or type(b) in (FloatQ, MonoQ):
        raise Unsupported('float comparison')
    if a is b and type(a) is not float:
        return 1
    if type(a) is Choice or type(b) is Choice:
        return interp.truth(interp.compare('Eq', a, b))
    if type(a) is Obj or type(b) is Obj:
        if plain_nt(a, '__eq__') and plain_nt(b, '__eq__') and (type(a) in (Obj, tuple)) and (type(b) in (Obj, tuple)):
            return eq_node(interp, nt_tuple(interp, a), nt_tuple(interp, b))
        if all(type(x) is not Obj or plain_nt(x, '__eq__') for x in (a, b)):
            return 0
        return interp.truth(interp.compare('Eq', a, b))
    if isint(a) and isint(b):
        return N.eq(N.b2i(a), N.b2i(b))
    if type(a) in (int, float, bool) and type(b) in (int, float, bool):
        return 1 if a == b else 0
    if is_text(a) and is_text(b):
        n = T.eq(interp, a, b)
        if n is None:
            raise Unsupported('text comparison')
        return n
    ka, kb = kind(a), kind(b)
    bl = ('bytes', 'bytearray')
    if ka != kb and not (ka in bl and kb in bl):
        return 0
    if ka in ('list', 'tuple') or ka in bl:
        A, B = seq_data(interp, a), seq_data(interp, b)
        alA = A.alts if type(A) is Choice else [(1, A)]
        alB = B.alts if type(B) is Choice else [(1, B)]
        r = 0
        for g, x in alA:
            for h, y in alB:
                gh = m.and_(g, h)
                if gh == 0 or len(x) != len(y):
                    continue
                n = gh
                for p, q in zip(x, y):
                    n = m.and_(n, eq_node(interp, p, q))
                    if n == 0:
                        break
                r = m.or_(r, n)
        return r
    if ka == 'dict':
        A, B = dict_items(interp, a), dict_items(interp, b)
        if len(A) != len(B):
            return 0
        r = 1
        for k, v in A:
            kk = key_of(interp, k)
            if kk is None or kk not in b.d:
                return 0
            r = m.and_(r, eq_node(interp, v, interp.read(b.d[kk])[0]))
        return r
    if ka == 'set':
        A, B = seq_data(interp, a), seq_data(interp, b)
        if type(A) is tuple and type(B) is tuple:
            ka = set(key_of(interp, x) for x in A)
            kb = set(key_of(interp, x) for x in B)
            if None not in ka and None not in kb:
                return 1 if ka == kb else 0
        raise Unsupported('set comparison')
    if ka == 'slice':
        return m.all_([eq_node(interp, x, y) for x, y in ((a.start, b.start), (a.stop, b.stop), (a.step, b.step))])
    if ka == 'range':
        return eq_node(interp, seq_data(interp, a), seq_data(interp, b))
    if a is None and b is None:
        return 1
    if type(a) is type(b) and isinstance(a, NativeObj) and hasattr(a, 'abs_eq'):
        return a.abs_eq(interp, b)
    return 1 if a is b else 0


def compare(interp, op, a, b):
    m, N = interp.m, interp.N
    if type(a) in (FloatQ, MonoQ) or type(b) in (FloatQ, MonoQ):
        raise Unsupported('float comparison')
    if type(a) is Choice or type(b) is Choice or (type(a) is Obj and a.cls.fields is None) or \
            (type(b) is Obj and b.cls.fields is None):
        return interp.compare(op, a, b)
    if op in ('Eq', 'NotEq'):
        n = eq_node(interp, a, b)
        return N.mkb(n if op == 'Eq' else m.not_(n))
    if type(a) is Obj or type(b) is Obj:
        return compare(interp, op, nt_tuple(interp, a), nt_tuple(interp, b))
    if type(a) in (int, float) and type(b) in (int, float):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if is_text(a) and is_text(b):
        ea, eb = T.expand(interp, a), T.expand(interp, b)
        if ea is None or eb is None:
            raise Unsupported('text ordering')
        r = 0
        for x, g in ea:
            for y, h in eb:
                if {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]:
                    r = m.or_(r, m.and_(g, h))
        return N.mkb(r)
    ka, kb = kind(a), kind(b)
    if (ka, kb) in (('tuple', 'tuple'), ('list', 'list'), ('bytes', 'bytes')) or (
            type(a) is Obj and type(b) is Obj):
        A, B = seq_data(interp, a), seq_data(interp, b)
        if type(A) is tuple and type(B) is tuple:
            return N.mkb(lex(interp, op, A, B))
        raise Unsupported('sequence ordering')
    if ka == 'set' and kb == 'set':
        A, B = seq_data(interp, a), seq_data(interp, b)
        ka = set(key_of(interp, x) for x in A)
        kb = set(key_of(interp, x) for x in B)
        if None in ka or None in kb:
            raise Unsupported('set comparison')
        return {'Lt': ka < kb, 'LtE': ka <= kb, 'Gt': ka > kb, 'GtE': ka >= kb}[op]
    interp.err_always('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (op, ka, kb))


def lex(interp, op, A, B):
    m = interp.m
    strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
    res = 0
    same = 1
    for x, y in zip(A, B):
        res = m.or_(res, m.and_(same, interp.truth(interp.compare(strict, x, y))))
        same = m.and_(same, eq_node(interp, x, y))
        if same == 0:
            break
    n, k = len(A), len(B)
    tail = {'Lt': n < k, 'LtE': n <= k, 'Gt': n > k, 'GtE': n >= k}[op]
    return m.or_(res, same) if tail else res


def contains(interp, c, x):
    """Node for  x in c."""
    m, N = interp.m, interp.N
    t = type(c)
    if t is Choice:
        r = 0
        pc0 = interp.pc
        live = 0
        for g, a in c.alts:
            interp.pc = m.and_(pc0, g)
            if interp.pc == 0:
                continue
            try:
                r = m.or_(r, m.and_(g, contains(interp, a, x)))
            except DeadPath:
                continue
            live = m.or_(live, interp.pc)
        interp.pc = live
        if not live:
            raise DeadPath()
        return r
    if t is PDict:
        return dict_contains(interp, c, x)
    if is_text(c):
        if type(x) is Choice:
            return m.any_([m.and_(g, contains(interp, c, a)) for g, a in x.alts if m.and_(g, interp.pc)])
        if not is_text(x):
            interp.err_always('TypeError', "'in <string>' requires string as left operand, not %s" % type_name(x))
        if type(c) is AStr and type(x) is str and x and not set(x) <= T.alphabet(c):
            return 0
        if type(c) is AStr and type(x) is str and any(isinstance(p, str) and x in p for p in c.parts):
            return 1
        ec, ex = T.expand(interp, c), T.expand(interp, x)
        if ec is None or ex is None:
            raise Unsupported('substring test')
        r = 0
        for s, g in ec:
            for y, h in ex:
                if y in s:
                    r = m.or_(r, m.and_(g, h))
        return r
    if t is PRange:
        x = to_index(interp, x) if isint(x) or type(x) is Obj else x
        if not isint(x):
            return 0
        if c.step == 1:
            return m.and_(m.not_(N.lt(x, c.start)), N.lt(x, c.stop))
        return m.any_([N.eq(x, i) for i in range_items(interp, c)])
    if t is Obj:
        r = interp.call_method(c, '__contains__', [x])
        if r is not ABSENT:
            return interp.truth(r)
    if t is PClass and c.enum:
        return m.any_([eq_node(interp, x, e) for e in c.members])
    r = 0
    for g, y in iterate(interp, c):
        if y is x:
            n = 1
        else:
            n = interp.truth(interp.compare('Eq', y, x))
        r = m.or_(r, m.and_(g, n))
        if r == 1:
            return 1
    return r


# ------------------------------------------------------------ attributes ----
def native_attr(interp, o, name):
    t = type(o)
    if t is Choice:
        raise Unsupported('attribute of alternatives')
    if t in (str, AStr):
        return str_method(interp, o, name)
    if t in (int, SI, bool, SB):
        return int_attr(interp, o, name)
    if t is PList:
        return list_attr(interp, o, name)
    if t is PByteArray or t is bytes or t is PBytes:
        return bytes_attr(interp, o, name)
    if t is PDict:
        return dict_attr(interp, o, name)
    if t is PSet:
        return set_attr(interp, o, name)
    if t is tuple:
        if name in ('index', 'count'):
            return list_attr(interp, o, name)
        return ABSENT
    if t is PSlice:
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        if name == 'indices':
            return Native('indices', lambda i, a, k: slice_indices(i, o, to_index(i, a[0])))
        return ABSENT
    if t is PRange:
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        if name in ('index', 'count'):
            return list_attr(interp, tuple(range_items(interp, o)), name)
        return ABSENT
    if t is PFunc:
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        if name == '__qualname__':
            return o.qual
        if name == '__module__':
            return o.module.name
        if name == '__doc__':
            return None
        if name == '__defaults__':
            return tuple(o.defaults) or None
        if name == '__dict__':
            d = PDict(interp.pc)
            for x, y in o.attrs.items():
                dict_set(interp, d, x, y)
            return d
        return ABSENT
    if t is PBound:
        if name == '__self__':
            return o.self
        if name == '__func__':
            return o.func
        return native_attr(interp, o.func, name) if type(o.func) is PFunc else ABSENT
    if t is PProperty:
        if name == 'setter':
            return Native('setter', lambda i, a, k: PProperty(o.fget, a[0], o.fdel))
        if name == 'getter':
            return Native('getter', lambda i, a, k: PProperty(a[0], o.fset, o.fdel))
        if name == 'deleter':
            return Native('deleter', lambda i, a, k: PProperty(o.fget, o.fset, a[0]))
        if name in ('fget', 'fset'):
            return getattr(o, name)
        return ABSENT
    if t is NativeType:
        if name == '__name__':
            return o.name
        if name in o.methods:
            return o.methods[name]
        if o.name == 'str' and hasattr(str, name):
            return Native('str.' + name, lambda i, a, k: i.call(i.getattr(a[0], name), a[1:], k))
        if o.name in ('list', 'dict', 'int', 'bytes', 'bytearray', 'set') and name in dir(
                {'list': list, 'dict': dict, 'int': int, 'bytes': bytes, 'bytearray': bytearray, 'set': set}[o.name]):
            return Native(o.name + '.' + name, lambda i, a, k: i.call(i.getattr(a[0], name), a[1:], k))
        return ABSENT
    if t is PIter:
        if name in ('__next__', 'next'):
            return Native('next', lambda i, a, k: bi_next(i, [o], {}))
        if name == 'close':
            return Native('close', lambda i, a, k: None)
        return ABSENT
    if t is Native:
        if name in ('__name__', '__qualname__'):
            return o.name
        if o.name == 'chain' and name == 'from_iterable':
            return Native(name, lambda i, a, k: i.call(o, [x for x in i.sequence(a[0])], {}))
        return ABSENT
    if t is float:
        if name == 'is_integer':
            return Native(name, lambda i, a, k: o.is_integer())
        return ABSENT
    return ABSENT


def int_attr(interp, o, name):
    N, m = interp.N, interp.m
    v = N.b2i(o)
    if name == 'bit_length':
        def f(i, a, k):
            if type(v) is int:
                return v.bit_length()
            lo, hi = N.rng(v)
            x = v
            if lo < 0:
                x = N.ite(N.lt(v, 0), N.neg(v), v)
            w = max(abs(lo), abs(hi)).bit_length()
            bits = N.bits(x, w)
            r = 0
            for j, b in enumerate(bits):
                r = N.ite(b, j + 1, r)
            return r
        return Native(name, f)
    if name == 'to_bytes':
        def f(i, a, k):
            n = a[0] if a else k.get('length', 1)
            order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
            signed = k.get('signed', False)
            n = to_index(i, n)
            if type(n) is SI:
                vals = N.values(n, i.pc, 64)
                if vals is None:
                    raise Unsupported('to_bytes length')
                return i.split([(g, x) for x, g in vals], lambda x: f(i, [x, order], {'signed': signed}))
            if not signed:
                bad = m.or_(N.lt(v, 0), m.not_(N.lt(v, 1 << (8 * n))))
            else:
                bad = m.or_(N.lt(v, -(1 << (8 * n - 1))), m.not_(N.lt(v, 1 << (8 * n - 1))))
            i.err('OverflowError', 'int too big to convert', bad)
            x = N.mod2(N.simplify(v, i.pc), 8 * n)
            items = [N.from_bits(N.bits(x, 8 * n)[8 * j:8 * j + 8]) for j in range(n)]
            return mkbytes(items if order == 'little' else items[::-1])
        return Native(name, f)
    if name == 'bit_count':
        def f(i, a, k):
            lo, hi = N.rng(v)
            return N.lin(0, [(b, 1) for b in N.bits(v, hi.bit_length())])
        return ABSENT
    if name in ('real', 'numerator'):
        return v
    if name == 'imag':
        return 0
    if name == 'denominator':
        return 1
    dunder = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__and__': '&', '__or__': '|', '__xor__': '^',
              '__lshift__': '<<', '__rshift__': '>>', '__mod__': '%', '__floordiv__': '//'}
    if name in dunder:
        return Native(name, lambda i, a, k: i.binop(dunder[name], v, a[0]) if isint(a[0]) else NotImplemented)
    if name in ('__index__', '__int__'):
        return Native(name, lambda i, a, k: v)
    return ABSENT


def list_attr(interp, o, name):
    N, m = interp.N, interp.m

    def append(i, a, k):
        list_append(i, o, a[0])

    def ext(i, a, k):
        extend(i, o, a[0])

    def insert(i, a, k):
        p = to_index(i, a[0])

        def f(d):
            if type(p) is SI:
                raise Unsupported('insert at symbolic position')
            l = list(d)
            l.insert(p, a[1])
            set_data(i, o, l)
        with_data(i, o, f)

    def pop(i, a, k):
        p = to_index(i, a[0]) if a else -1

        def f(d):
            if type(p) is SI:
                raise Unsupported('pop at symbolic position')
            if not -len(d) <= p < len(d):
                i.err_always('IndexError', 'pop from empty list')
            l = list(d)
            v = l.pop(p)
            set_data(i, o, l)
            return i.read(v)[0]
        return with_data(i, o, f)

    def reverse(i, a, k):
        with_data(i, o, lambda d: set_data(i, o, d[::-1]))

    def sort(i, a, k):
        with_data(i, o, lambda d: set_data(i, o, do_sort(i, d, k)))

    def clear(i, a, k):
        set_data(i, o, ())

    def copy(i, a, k):
        r = PList((), i.pc)
        r.d['data'] = seq_data(i, o)
        return r

    def index(i, a, k):
        d = seq_data(i, o)
        if type(d) is Choice:
            raise Unsupported('index')
        none = 1
        res = []
        for j, x in enumerate(d):
            n = i.truth(i.compare('Eq', x, a[0]))
            g = m.and_(none, n)
            if g:
                res.append((g, j))
            none = m.and_(none, m.not_(n))
        i.err('ValueError', 'not in list', none)
        return i.merge_list(res)

    def count(i, a, k):
        d = seq_data(i, o)
        if type(d) is Choice:
            raise Unsupported('count')
        return N.lin(0, [(i.truth(i.compare('Eq', x, a[0])), 1) for x in d])

    def remove(i, a, k):
        d = seq_data(i, o)
        if type(d) is Choice:
            raise Unsupported('remove')
        for j, x in enumerate(d):
            n = m.and_(i.truth(i.compare('Eq', x, a[0])), i.pc)
            if n == i.pc:
                set_data(i, o, d[:j] + d[j + 1:])
                return
            if n:
                raise Unsupported('remove')
        i.err_always('ValueError', 'list.remove(x): x not in list')
    if type(o) is PList and o.deque and name in ('appendleft', 'popleft', 'extendleft', 'rotate', 'maxlen'):
        if name == 'appendleft':
            return Native(name, lambda i, a, k: insert(i, [0, a[0]], {}))
        if name == 'popleft':
            return Native(name, lambda i, a, k: pop(i, [0], {}))
        raise Unsupported('deque.%s' % name)
    f = {'append': append, 'extend': ext, 'insert': insert, 'pop': pop, 'reverse': reverse, 'sort': sort,
         'clear': clear, 'copy': copy, 'index': index, 'count': count, 'remove': remove}.get(name)
    if f is None:
        if name == '__len__':
            return Native(name, lambda i, a, k: length(i, o))
        if name == '__getitem__':
            return Native(name, lambda i, a, k: getitem(i, o, a[0]))
        if name == '__iter__':
            return Native(name, lambda i, a, k: PIter(list(iterate(i, o))))
        return ABSENT
    return Native('list.' + name, f)


def bytes_attr(interp, o, name):
    N, m = interp.N, interp.m
    if type(o) is PByteArray and name in ('append', 'extend', 'insert', 'pop', 'reverse', 'clear'):
        base = list_attr(interp, o, name).fn
        if name == 'append':
            return Native(name, lambda i, a, k: base(i, [byte_check(i, a[0])], k))
        return Native(name, base)

    def just(left):
        def f(i, a, k):
            w = to_index(i, a[0])
            fill = a[1] if len(a) > 1 else b' '
            fv = seq_data(i, fill)[0]

            def g(d):
                if type(w) is SI:
                    raise Unsupported('just width')
                p = (fv,) * max(0, w - len(d))
                return rewrap(i, o, d + p if left else p + d)
            return with_data(i, o, g)
        return f

    def join(i, a, k):
        out = []
        for g, x in iterate(i, a[0]):
            if not m.implies(i.pc, g):
                raise Unsupported('join')
            if out:
                out.extend(seq_data(i, o))
            out.extend(iter_items(i, x) if type(x) is Obj else seq_data(i, x))
        return rewrap(i, o, out)

    def hexs(i, a, k):
        out = []
        for x in seq_data(i, o):
            out.append(T.from_int(i, x, '02x'))
        return T.concat(out)

    def startswith(i, a, k):
        d, p = seq_data(i, o), seq_data(i, a[0])
        if len(d) < len(p):
            return False
        return N.mkb(m.all_([N.eq(x, y) for x, y in zip(d, p)]))

    def decode(i, a, k):
        d = seq_data(i, o)
        if all(type(x) is int for x in d):
            return bytes(d).decode(*a)
        raise Unsupported('decode')
    f = {'ljust': just(True), 'rjust': just(False), 'join': join, 'hex': hexs, 'startswith': startswith,
         'decode': decode, 'copy': lambda i, a, k: rewrap(i, o, seq_data(i, o)),
         'count': lambda i, a, k: N.lin(0, [(N.eq(x, to_index(i, a[0])), 1) for x in seq_data(i, o)])}.get(name)
    if f is None:
        if name in ('find', 'index', 'rfind', 'rindex', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'endswith', 'partition', 'rpartition', 'replace', 'translate',
                    'isdigit', 'isalpha', 'upper', 'lower', 'splitlines', 'center', 'zfill', 'expandtabs', 'title', 'isspace', 'isalnum'):
            def known(i, a, k):
                d = more.plain(o) if type(o) is not bytes else o
                try:
                    r = getattr(d, name)(*[more.plain(x) for x in a])
                except (ValueError, TypeError) as e:
                    i.err_always(type(e).__name__, str(e))

                def out(x):
                    if type(x) in (list, tuple):
                        y = [out(z) for z in x]
                        return tuple(y) if type(x) is tuple else PList(y, i.pc)
                    return rewrap(i, o, tuple(x)) if type(x) is bytes else x
                return out(r)
            return Native('bytes.' + name, known)
        if type(o) is PByteArray and name == 'remove':
            return Native(name, list_attr(interp, o, name).fn)
        if name in ('__len__', '__getitem__', '__iter__'):
            return list_attr(interp, o, name)
        return ABSENT
    return Native('bytes.' + name, f)


def dict_attr(interp, o, name):
    def get(i, a, k):
        d = a[1] if len(a) > 1 else k.get('default')
        return dict_get(i, o, a[0], lambda: d)

    def setdefault(i, a, k):
        d = a[1] if len(a) > 1 else None

        def miss():
            dict_set(i, o, a[0], d)
            return d
        return dict_get(i, o, a[0], miss)

    def pop(i, a, k):
        def miss():
            if len(a) > 1:
                return a[1]
            return dict_missing(i, o, a[0])
        v = dict_get(i, o, a[0], miss)
        dict_drop(i, o, a[0])
        return v

    def items(i, a, k):
        return PIter([(g, (x, dict_get(i, o, x, lambda: None))) for g, x in iterate(i, o)])

    def values(i, a, k):
        return PIter([(g, dict_get(i, o, x, lambda: None)) for g, x in iterate(i, o)])

    def keys(i, a, k):
        return DictKeys(o)

    def update(i, a, k):
        for x in a:
            dict_update(i, o, x)
        for x, v in k.items():
            dict_set(i, o, x, v)

    def copy(i, a, k):
        r = PDict(i.pc, o.default)
        for x, v in dict_items(i, o):
            dict_set(i, r, x, v)
        return r

    def clear(i, a, k):
        if o.owner is not None:
            raise Unsupported('removal from __dict__')
        for kk in list(o.d):
            i.write(o.d, kk, ABSENT, o.birth)
    f = {'get': get, 'setdefault': setdefault, 'pop': pop, 'items': items, 'values': values, 'keys': keys,
         'update': update, 'copy': copy, 'clear': clear, 'iteritems': None}.get(name)
    if f is None:
        if name == '__contains__':
            return Native(name, lambda i, a, k: i.N.mkb(dict_contains(i, o, a[0])))
        if name == '__getitem__':
            return Native(name, lambda i, a, k: getitem(i, o, a[0]))
        return ABSENT
    return Native('dict.' + name, f)


class SentinelIter(NativeObj):
    def __init__(self, f, stop):
        self.f, self.stop = f, stop

    def pget(self, interp, name):
        if name == '__iter__':
            def items(i, a, k):
                m = i.m
                out = []
                pc0 = i.pc
                done = 0
                for _ in range(i.LOOP_CAP):
                    i.pc = m.and_(i.pc, m.not_(done))
                    if i.pc == 0:
                        break
                    v = i.call(self.f, [], {})
                    n = i.truth(i.compare('Eq', v, self.stop))
                    done = m.or_(done, m.and_(i.pc, n))
                    g = m.and_(i.pc, m.not_(n))
                    if g:
                        out.append((g, v))
                else:
                    raise Unsupported('iterator bound')
                i.pc = pc0
                return PIter(out)
            return Native(name, items)
        return ABSENT


class DictKeys(NativeObj):
    def __init__(self, d):
        self.d = d

    def pget(self, interp, name):
        if name == '__iter__':
            return Native(name, lambda i, a, k: PIter(list(iterate(i, self.d))))
        if name == '__len__':
            return Native(name, lambda i, a, k: length(i, self.d))
        if name == '__contains__':
            return Native(name, lambda i, a, k: i.N.mkb(dict_contains(i, self.d, a[0])))
        return ABSENT


def set_attr(interp, o, name):
    if name == 'add':
        return Native('set.add', lambda i, a, k: set_add(i, o, a[0]))
    if name == 'copy':
        return Native('set.copy', lambda i, a, k: PSet(seq_data(i, o), i.pc))
    if name == 'update':
        def f(i, a, k):
            for x in a:
                for g, y in iterate(i, x):
                    set_add(i, o, y)
        return Native('set.update', f)
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
        def f(i, a, k):
            b = a[0] if a else PSet([], i.pc)
            if len(a) > 1:
                raise Unsupported('set operation over several operands')
            if type(b) is not PSet:
                s = PSet([], i.pc)
                for g, y in iterate(i, b):
                    set_add(i, s, y)
                b = s
            if name == 'issubset':
                return compare(i, 'LtE', o, b)
            if name == 'issuperset':
                return compare(i, 'GtE', o, b)
            if name == 'isdisjoint':
                return i.N.mkb(i.m.not_(i.truth(binop(i, '&', o, b))))
            return binop(i, {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}[name], o, b)
        return Native('set.' + name, f)
    if name in ('discard', 'remove'):
        def f(i, a, k):
            kk = key_of(i, a[0])
            d = seq_data(i, o)
            if type(d) is Choice or kk is None:
                raise Unsupported('set removal')
            ks = [key_of(i, x) for x in d]
            if None in ks:
                raise Unsupported('set removal')
            if kk not in ks:
                if name == 'remove':
                    i.err_always('KeyError', '')
                return
            set_data(i, o, tuple(x for x, y in zip(d, ks) if y != kk))
        return Native('set.' + name, f)
    return ABSENT


def class_extra(interp, cls, name):
    if name == '__mro__':
        return tuple(cls.mro)
    if name == '__bases__':
        return tuple(cls.bases)
    if name == '__dict__':
        d = PDict(1)
        for k, v in cls.ns.items():
            dict_set(interp, d, k, v)
        return d
    if name == '__module__':
        return cls.module.name if cls.module else 'builtins'
    if name == '__doc__':
        return None
    if name == '__qualname__':
        return cls.name
    if name == '__class__':
        return interp.builtins['type']
    if name == '__new__' and not cls.enum:
        return Native('__new__', lambda i, a, k: i.raw_new(a, k))
    if cls.enum and name == '__members__':
        d = PDict(1)
        for x in cls.members:
            dict_set(interp, d, x.d['name'], x)
        return d
    if cls.fields is not None:
        if name == '_fields':
            return tuple(cls.fields)
        if name == '_make':
            return Native('_make', lambda i, a, k: i.instantiate(cls, i.sequence(a[0]), {}))
    return ABSENT


def instance_extra(interp, o, name):
    if name == '__class__':
        return o.cls
    if name == '__dict__':
        if o.cls.fields is None:
            d = PDict(o.birth)
            for k, v in o.d.items():
                x, miss = interp.read(v)
                if x is not ABSENT and not miss:
                    dict_set(interp, d, k, x)
                elif x is not ABSENT and miss:
                    raise Unsupported('__dict__ of an object with uncertain attributes')
            d.owner = o
            return d
    if name == '__doc__':
        return None
    if o.cls.fields is not None:
        if name == '_replace':
            def f(i, a, k):
                n = Obj(o.cls, i.pc)
                namedtuple_init(i, n, [k.get(x, o.d[x]) for x in o.cls.fields], {})
                if [x for x in k if x not in o.cls.fields]:
                    i.err_always('ValueError', 'Got unexpected field names')
                return n
            return Native('_replace', f)
        if name == '_asdict':
            def f(i, a, k):
                d = PDict(i.pc)
                for x in o.cls.fields:
                    dict_set(i, d, x, o.d[x])
                return d
            return Native('_asdict', f)
        if name == '_fields':
            return tuple(o.cls.fields)
        if name in ('index', 'count'):
            return list_attr(interp, tuple(o.d[x] for x in o.cls.fields), name)
    if o.cls.is_exc:
        if name == 'args':
            return ()
        if name in ('message',):
            return ABSENT
        if name in ('__traceback__', '__cause__', '__context__'):
            return None
        if name == 'with_traceback':
            return Native(name, lambda i, a, k: o)
    return ABSENT


# -------------------------------------------------------- enum, namedtuple ----
def finish_enum(interp, cls):
    members = []
    byval = {}
    for name, v in list(cls.ns.items()):
        if name.startswith('_') or isinstance(v, (PFunc, PProperty, PStatic, PClassMethod, Native)):
            continue
        if isinstance(v, NativeObj) and getattr(v, 'enum_auto', False):
            prev = members[-1].d['value'] if members else 0
            if type(prev) is not int or cls.find('_generate_next_value_') is not ABSENT:
                raise Unsupported('auto() after a value that is no number')
            v = prev + 1
            if any(c.name == 'IntFlag' for c in cls.mro):
                v = 1 << prev.bit_length()
            kk = ('i', v)
        else:
            kk = key_of(interp, v)
        if kk in byval:
            cls.ns[name] = byval[kk]
            continue
        o = Obj(cls, 1)
        o.d = {'name': name, 'value': v, '_value_': v, '_name_': name}
        byval[kk] = o
        cls.ns[name] = o
        members.append(o)
    cls.members = members
    cls.byval = byval


def enum_lookup(interp, cls, args):
    v = args[0]
    if type(v) is Choice:
        return interp.split(v.alts, lambda a: enum_lookup(interp, cls, [a]))
    if type(v) is Obj and v.cls is cls:
        return v
    res = []
    cov = 0
    m = interp.m
    for x in cls.members:
        n = m.and_(interp.pc, interp.truth(interp.compare('Eq', v, x.d['value'])))
        n = m.and_(n, m.not_(cov))
        if n:
            res.append((n, x))
            cov = m.or_(cov, n)
    bad = m.and_(interp.pc, m.not_(cov))
    if bad:
        interp.err('ValueError', 'not a valid %s' % cls.name, bad)
    return interp.merge_list(res)


def namedtuple_init(interp, o, args, kw):
    fields = o.cls.fields
    defaults = getattr(o.cls, 'nt_defaults', {})
    args = list(args)
    if len(args) > len(fields):
        interp.err_always('TypeError', '%s() takes %d arguments' % (o.cls.name, len(fields)))
    kw = dict(kw)
    for f, v in zip(fields, args):
        if f in kw:
            interp.err_always('TypeError', 'multiple values for %s' % f)
        o.d[f] = v
    for f in fields[len(args):]:
        if f in kw:
            o.d[f] = kw.pop(f)
        elif f in defaults:
            o.d[f] = defaults[f]
        else:
            interp.err_always('TypeError', "%s() missing argument '%s'" % (o.cls.name, f))
    if kw:
        interp.err_always('TypeError', '%s() got an unexpected keyword argument' % o.cls.name)


# -------------------------------------------------------------- builtins ----
def do_sort(interp, items, kw):
    keyf = kw.get('key')
    rev = kw.get('reverse', False)
    ks = []
    for x in items:
        k = interp.call(keyf, [x], {}) if keyf is not None else x
        ks.append(k)

    def conc(k):
        if type(k) in (int, str, float, bool):
            return k
        if type(k) is tuple:
            return tuple(conc(x) for x in k)
        if type(k) is SI:
            k = interp.N.simplify(k, interp.pc)
            if type(k) is int:
                return k
        raise Unsupported('sort by symbolic key')
    if any(type(k) is Obj and k.cls.fields is None for k in ks):
        order = []
        for j in range(len(items)):
            pos = len(order)
            while pos > 0:
                x, y = ks[j], ks[order[pos - 1]]
                n = interp.truth(interp.compare('Lt', y, x) if rev else interp.compare('Lt', x, y))
                n = interp.m.simplify(n, interp.pc)
                if n > 1:
                    raise Unsupported('sort by symbolic key')
                if not n:
                    break
                pos -= 1
            order.insert(pos, j)
        return tuple(items[i] for i in order)
    try:
        cs = [conc(k) for k in ks]
        order = sorted(range(len(items)), key=lambda i: cs[i], reverse=bool(rev))
    except TypeError:
        interp.err_always('TypeError', 'unorderable types')
    return tuple(items[i] for i in order)


def bi_next(interp, a, k):
    it = a[0]
    m = interp.m
    if type(it) is not PIter:
        if type(it) is Obj:
            if it.cls.find('__next__') is ABSENT:
                interp.err_always('TypeError', 'not an iterator')
            if len(a) == 1:
                return interp.call_method(it, '__next__', [])
            pc = interp.pc
            ctx = []
            interp.hs.append(ctx)
            alts = []
            try:
                try:
                    r = interp.call_method(it, '__next__', [])
                    alts.append((interp.pc, r))
                except DeadPath:
                    pass
            finally:
                interp.hs.pop()
            for g, e in ctx:
                if interp.builtins['StopIteration'] in e.cls.mro:
                    alts.append((g, a[1]))
                else:
                    interp.hs[-1].append((g, e))
            interp.pc = m.any_([g for g, _ in alts])
            if not alts:
                raise DeadPath()
            return interp.merge_list(alts)
        interp.err_always('TypeError', 'not an iterator')
    if it.isgen == 'count':
        v = it.items
        it.items = interp.N.add(v, it.ret) if m.implies(1, interp.pc) else interp.N.add(v, interp.N.lin(0, [(interp.pc, it.ret)]))
        return v
    # the first remaining item whose guard holds
    pc = interp.pc
    taken = 0
    alts = []
    for j in range(it.pos, len(it.items)):
        g, v = it.items[j]
        here = m.and_(interp.pc, g)
        if here == 0:
            continue
        take(interp, it, j)
        alts.append((here, v))
        taken = m.or_(taken, here)
        interp.pc = m.and_(interp.pc, m.not_(here))
        if interp.pc == 0:
            break
    interp.pc = pc
    missing = m.and_(pc, m.not_(taken))
    if not missing:
        return interp.merge_list([(g, interp.read(v, g)[0]) for g, v in alts])

    def none():
        for g, e in it.tail:
            interp.raise_obj(e, g)
        if len(a) > 1:
            return a[1]
        interp.err_always('StopIteration')
    if not alts:
        return none()
    return interp.branch(taken, lambda: interp.merge_list([(g, interp.read(v, g)[0]) for g, v in alts]), none)


def make_builtins(interp):
    B = {}

    def native(name):
        def d(f):
            B[name] = Native(name, f)
            return f
        return d

    def ntype(name, fn, names=None):
        t = NativeType(name, fn, names)
        B[name] = t
        return t

    obj = PClass('object', [], {})
    B['object'] = obj
    obj.ns['__init__'] = Native('object.__init__', lambda i, a, k: None)
    obj.ns['__setattr__'] = Native('object.__setattr__', lambda i, a, k: i.write(a[0].d, a[1], a[2], a[0].birth))

    def exc(name, base):
        c = PClass(name, [base], {})
        c.is_exc = True
        B[name] = c
        return c
    base = exc('BaseException', obj)

    def exc_init(i, a, k):
        i.write(a[0].d, 'args', tuple(a[1:]), a[0].birth)
    base.ns['__init__'] = Native('BaseException.__init__', exc_init)
    E = exc('Exception', base)
    for n, b in [('SystemExit', 'BaseException'), ('KeyboardInterrupt', 'BaseException'),
                 ('GeneratorExit', 'BaseException'), ('ArithmeticError', 'Exception'), ('AssertionError', 'Exception'),
                 ('AttributeError', 'Exception'), ('EOFError', 'Exception'), ('ImportError', 'Exception'),
                 ('ModuleNotFoundError', 'ImportError'), ('LookupError', 'Exception'), ('IndexError', 'LookupError'),
                 ('KeyError', 'LookupError'), ('NameError', 'Exception'), ('UnboundLocalError', 'NameError'),
                 ('OSError', 'Exception'), ('RuntimeError', 'Exception'), ('NotImplementedError', 'RuntimeError'),
                 ('RecursionError', 'RuntimeError'), ('StopIteration', 'Exception'), ('SyntaxError', 'Exception'),
                 ('TypeError', 'Exception'), ('ValueError', 'Exception'), ('UnicodeError', 'ValueError'),
                 ('UnicodeDecodeError', 'UnicodeError'), ('UnicodeEncodeError', 'UnicodeError'),
                 ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'),
                 ('MemoryError', 'Exception'), ('BufferError', 'Exception'), ('Warning', 'Exception'),
                 ('DeprecationWarning', 'Warning'), ('FileNotFoundError', 'OSError'),
                 ('struct.error', 'Exception')]:
        exc(n, B[b])
    B['IOError'] = B['OSError']
    B['EnvironmentError'] = B['OSError']

    # --- types
    def t_int(i, a, k):
        if not a:
            return 0
        v = a[0]
        bs = a[1] if len(a) > 1 else k.get('base', ABSENT)
        if type(v) is Choice:
            return i.split(v.alts, lambda x: t_int(i, [x] + list(a[1:]), k))
        if bs is not ABSENT and not is_text(v) and type(v) not in (bytes, PBytes, PByteArray):
            i.err_always('TypeError', "int() can't convert non-string with explicit base")
        if isint(v):
            return i.N.b2i(v)
        if type(v) is float:
            return int(v)
        if type(v) is FloatQ:
            return v.trunc(i)
        if type(v) is MonoQ:
            return v.map(i, int)
        if is_text(v):
            return int_of_text(i, v, 10 if bs is ABSENT else to_index(i, bs))
        if type(v) is Obj:
            for nm in ('__int__', '__index__', '__trunc__'):
                r = i.call_method(v, nm, [])
                if r is not ABSENT:
                    return to_index(i, r)
        i.err_always('TypeError', "int() argument must be a string or a number, not '%s'" % type_name(v))
    ti = ntype('int', t_int, ('int', 'bool'))

    def from_bytes(i, a, k):
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        signed = k.get('signed', False)
        items = i.nat.iter_items(i, a[0])

        def f(it):
            it = list(it) if order == 'little' else list(it)[::-1]
            bits = []
            for x in it:
                bits.extend(i.N.bits(byte_check(i, x), 8))
            return i.N.signed_from_bits(bits) if signed and bits else i.N.from_bits(bits)
        if type(items) is Choice:
            return i.split(items.alts, f)
        return f(items)
    ti.methods['from_bytes'] = Native('int.from_bytes', from_bytes)

    def t_bool(i, a, k):
        if not a:
            return False
        return i.N.mkb(i.m.simplify(i.truth(a[0]), i.pc))
    ntype('bool', t_bool)
    ntype('str', lambda i, a, k: py_str(i, a[0]) if a else '')

    def t_float(i, a, k):
        if type(a[0]) in (int, float, str):
            try:
                return float(a[0])
            except ValueError as e:
                i.err_always('ValueError', str(e))
        raise Unsupported('float()')
    ntype('float', t_float)

    def t_list(i, a, k):
        if not a:
            return PList([], i.pc)
        r = PList([], i.pc)
        r.d['data'] = iter_items(i, a[0])
        return r
    ntype('list', t_list)

    def t_tuple(i, a, k):
        return iter_items(i, a[0]) if a else ()
    ntype('tuple', t_tuple)

    def t_set(i, a, k):
        s = PSet([], i.pc)
        if a:
            for g, v in iterate(i, a[0]):
                if not i.m.implies(i.pc, g):
                    raise Unsupported('guarded set')
                set_add(i, s, v)
        return s
    ntype('set', t_set)
    ntype('frozenset', t_set, ('set',))

    def t_dict(i, a, k):
        d = PDict(i.pc)
        if a:
            dict_update(i, d, a[0])
        for x, v in k.items():
            dict_set(i, d, x, v)
        return d
    ntype('dict', t_dict)

    def bytelike(mk):
        def f(i, a, k):
            if not a:
                return mk(i, ())
            v = a[0]
            if type(v) is Choice:
                return i.split(v.alts, lambda x: f(i, [x] + list(a[1:]), k))
            if type(v) is Obj and v.cls.find('__index__') is not ABSENT and v.cls.fields is None:
                v = to_index(i, v)
            if isint(v):
                v = i.N.b2i(v)
                i.err('ValueError', 'negative count', i.N.lt(v, 0))
                vals = i.N.values(v, i.pc, 64) if type(v) is SI else [(v, i.pc)]
                if vals is None:
                    raise Unsupported('bytes of symbolic length')
                return i.split([(g, x) for x, g in vals], lambda x: mk(i, (0,) * x))
            if is_text(v):
                if type(v) is str and len(a) > 1:
                    return mk(i, tuple(v.encode(a[1])))
                i.err_always('TypeError', 'string argument without an encoding')
            items = iter_items(i, v)

            def g(it):
                return mk(i, tuple(byte_check(i, x) for x in it))
            return i.split(items.alts, g) if type(items) is Choice else g(items)
        return f
    tb = ntype('bytes', bytelike(lambda i, it: mkbytes(it)))
    tba = ntype('bytearray', bytelike(lambda i, it: PByteArray(it, i.pc)))

    def fromhex(i, a, k):
        return mkbytes(tuple(bytes.fromhex(a[0])))
    tb.methods['fromhex'] = Native('fromhex', fromhex)
    tba.methods['fromhex'] = Native('fromhex', lambda i, a, k: PByteArray(tuple(bytes.fromhex(a[0])), i.pc))

    def fromkeys(i, a, k):
        d = PDict(i.pc)
        for g, x in iterate(i, a[0]):
            dict_set(i, d, x, a[1] if len(a) > 1 else None)
        return d
    B['dict'].methods['fromkeys'] = Native('fromkeys', fromkeys)

    def t_slice(i, a, k):
        if len(a) == 1:
            return PSlice(None, a[0], None)
        return PSlice(a[0], a[1], a[2] if len(a) > 2 else None)
    ntype('slice', t_slice)

    def t_range(i, a, k):
        a = [to_index(i, x) for x in a]
        if len(a) == 1:
            return PRange(0, a[0], 1)
        if len(a) == 3:
            if a[2] == 0:
                i.err_always('ValueError', 'range() arg 3 must not be zero')
            return PRange(a[0], a[1], a[2])
        return PRange(a[0], a[1], 1)
    ntype('range', t_range)
    B['xrange'] = B['range'] if False else B['range']
    del B['xrange']

    def t_type(i, a, k):
        if len(a) == 3:
            raise Unsupported('dynamic class')
        return type_of(i, a[0])
    ntype('type', t_type)
    ntype('property', lambda i, a, k: PProperty(*(list(a) + [k.get('fset')] * (len(a) < 2))))
    ntype('staticmethod', lambda i, a, k: PStatic(a[0]))
    ntype('classmethod', lambda i, a, k: PClassMethod(a[0]))
    B['NoneType'] = NativeType('NoneType')
    B['function'] = NativeType('function', None, ('function', 'method'))
    extra = {}

    def type_of(i, v):
        if type(v) is Choice:
            return i.split(v.alts, lambda x: type_of(i, x))
        if type(v) is Obj:
            return v.cls
        kd = kind(v)
        t = B.get(kd)
        if t is None:
            t = extra.setdefault(kd, NativeType(kd))
        return t
    B['NotImplemented'] = NotImplemented
    B['Ellipsis'] = Ellipsis
    B['True'], B['False'], B['None'] = True, False, None
    B['__name__'] = 'builtins'
    B['__debug__'] = True
    B['__file__'] = 'module'

    # --- functions
    native('len')(lambda i, a, k: length(i, a[0]))
    native('isinstance')(lambda i, a, k: i.N.mkb(i.m.simplify(isinst(i, a[0], a[1]), i.pc)))

    @native('issubclass')
    def _(i, a, k):
        c, t = a
        ts = t if type(t) is tuple else (t,)
        if isinstance(c, PClass):
            return any(x in c.mro for x in ts)
        if isinstance(c, NativeType):
            return any(x is c or (isinstance(x, NativeType) and c.name in x.names) for x in ts)
        raise Unsupported('issubclass')

    @native('hasattr')
    def _(i, a, k):
        return i.N.mkb(i.m.simplify(i.hasattr_node(a[0], a[1]), i.pc))

    @native('getattr')
    def _(i, a, k):
        def one(nm):
            if type(nm) is not str:
                if not is_text(nm):
                    i.err_always('TypeError', 'attribute name must be string')
                e = T.expand(i, nm)
                if e is None:
                    raise Unsupported('symbolic attribute name')
                return i.split([(g, x) for x, g in e], one)
            if len(a) > 2:
                n = i.m.and_(i.hasattr_node(a[0], nm), i.pc)
                if n == 0:
                    return a[2]
                if n == i.pc:
                    return i.getattr(a[0], nm)
                return i.branch(n, lambda: i.getattr(i.read(a[0])[0], nm), lambda: a[2])
            return i.getattr(a[0], nm)
        return one(a[1])

    @native('setattr')
    def _(i, a, k):
        if type(a[1]) is not str:
            e = T.expand(i, a[1])
            if e is None:
                raise Unsupported('symbolic attribute name')
            i.split([(g, x) for x, g in e], lambda x: i.setattr(a[0], x, a[2]))
            return
        i.setattr(a[0], a[1], a[2])

    @native('delattr')
    def _(i, a, k):
        i.write(a[0].d, a[1], ABSENT, a[0].birth)

    @native('abs')
    def _(i, a, k):
        v = i.N.b2i(a[0]) if isint(a[0]) else a[0]
        if type(v) is SI:
            return i.N.ite(i.N.lt(v, 0), i.N.neg(v), v)
        if type(v) in (int, float):
            return abs(v)
        if type(v) is Obj:
            r = i.call_method(v, '__abs__', [])
            if r is not ABSENT:
                return r
        i.err_always('TypeError', 'bad operand type for abs()')

    def minmax(is_min):
        def f(i, a, k):
            items = list(a) if len(a) > 1 else [x for x in i.sequence(a[0])]
            if not items:
                if 'default' in k:
                    return k['default']
                i.err_always('ValueError', 'arg is an empty sequence')
            keyf = k.get('key')
            best = items[0]
            kb = i.call(keyf, [best], {}) if keyf is not None else best
            for x in items[1:]:
                kx = i.call(keyf, [x], {}) if keyf is not None else x
                n = i.truth(i.compare('Lt' if is_min else 'Gt', kx, kb))
                best = i.read(i.merge(n, x, best))[0]
                kb = i.read(i.merge(n, kx, kb))[0]
            return best
        return f
    native('min')(minmax(True))
    native('max')(minmax(False))

    @native('sum')
    def _(i, a, k):
        r = a[1] if len(a) > 1 else 0
        for g, v in iterate(i, a[0]):
            p = i.m.and_(g, i.pc)
            if p == 0:
                continue
            if p == i.pc:
                r = i.binop('+', r, i.read(v)[0])
            else:
                pc0 = i.pc
                i.pc = p
                x = i.binop('+', r, i.read(v)[0])
                i.pc = pc0
                r = i.merge(g, x, r)
        return r

    def anyall(is_any):
        def f(i, a, k):
            m = i.m
            r = 0 if is_any else 1
            for g, v in iterate(i, a[0]):
                p = m.and_(g, i.pc)
                if p == 0:
                    continue
                pc0 = i.pc
                i.pc = p
                n = i.truth(v)
                i.pc = pc0
                if is_any:
                    r = m.or_(r, m.and_(g, n))
                else:
                    r = m.and_(r, m.or_(m.not_(g), n))
            return i.N.mkb(m.simplify(r, i.pc))
        return f
    native('any')(anyall(True))
    native('all')(anyall(False))

    @native('sorted')
    def _(i, a, k):
        items = iter_items(i, a[0])
        if type(items) is Choice:
            return PList(i.split(items.alts, lambda it: do_sort(i, it, k)), i.pc)
        return PList(do_sort(i, items, k), i.pc)

    @native('reversed')
    def _(i, a, k):
        v = a[0]
        if type(v) is Choice:
            return i.split(v.alts, lambda x: i.call(B['reversed'], [x], {}))
        if type(v) is Obj:
            r = i.call_method(v, '__reversed__', [])
            if r is not ABSENT:
                return r
            if v.cls.fields is None:
                n = length(i, v)
                f = v.cls.find('__getitem__')
                if type(n) is int and f is not ABSENT:
                    return PIter([(1, i.call(i.bind(f, v), [j], {})) for j in range(n - 1, -1, -1)])
                raise Unsupported('reversed')
        if type(v) is PRange and not r_concrete(v):
            if v.step == 1:
                return PRange(i.N.sub(v.stop, 1), i.N.sub(v.start, 1), -1)
            raise Unsupported('reversed symbolic range')
        if type(v) is PIter or type(v) is PSet:
            i.err_always('TypeError', 'object is not reversible')
        d = [x for x, _ in dict_items(i, v)] if type(v) is PDict else seq_data(i, v)
        if type(d) is Choice:
            raise Unsupported('reversed')
        return PIter([(1, x) for x in reversed(d)])

    @native('enumerate')
    def _(i, a, k):
        st = a[1] if len(a) > 1 else k.get('start', 0)
        items = []
        tail = []
        ctx = []
        src = a[0]
        if type(src) is PIter:
            tail, src.tail = src.tail, []
        idx = st
        cnt = 0
        for g, v in iterate(i, src):
            items.append((g, (idx if type(idx) is int else idx, v)))
            if i.m.implies(i.pc, g):
                idx = i.N.add(idx, 1)
            else:
                idx = i.N.add(idx, i.N.lin(0, [(g, 1)]))
        return PIter(items, tail)

    @native('zip')
    def _(i, a, k):
        cols = []
        shared = [x for j, x in enumerate(a) if type(x) is PIter and x.isgen != 'count' and any(x is y for y in a[:j])]
        if shared:
            # one iterator in several columns: the columns take turns
            if len(a) != sum(1 for x in a if x is shared[0]):
                raise Unsupported('zip of shared and other iterators')
            items = list(iterate(i, shared[0]))
            if not all(i.m.implies(i.pc, g) for g, _ in items):
                raise Unsupported('zip of an indefinite iterator')
            k = len(a)
            return PIter([(1, tuple(v for _, v in items[j:j + k])) for j in range(0, len(items) - k + 1, k)])
        later = []
        for x in a:
            if type(x) is PIter and x.isgen == 'count':
                cols.append(None)
                continue
            if type(x) is Obj and x.cls.find('__next__') is not ABSENT and len(a) > 1:
                later.append(len(cols))
                cols.append(())
                continue
            cols.append(list(iterate(i, x)))
        for j in later:
            n = min([len(c) for y, c in enumerate(cols) if c is not None and y not in later] or [-1])
            if n < 0 or any(g != 1 and not i.m.implies(i.pc, g) for y, c in enumerate(cols) if c is not None for g, _ in c):
                raise Unsupported('zip of iterator objects')
            cols[j] = []
            for _ in range(n):
                cols[j].append((1, bi_next(i, [a[j]], {})))
        guards = [[i.m.and_(g, i.pc) for g, _ in c] for c in cols if c is not None]
        if None in cols or any(gs != guards[0] for gs in guards):
            for gs in guards:
                if any(not i.m.implies(y, x) for x, y in zip(gs, gs[1:])):
                    raise Unsupported('zip of indefinite sequences')
        n = min(len(c) for c in cols if c is not None)
        out = []
        for j in range(n):
            g = 1
            vals = []
            for ci, c in enumerate(cols):
                if c is None:
                    vals.append(i.N.add(a[ci].items, a[ci].ret * j))
                    continue
                g = i.m.and_(g, c[j][0])
                vals.append(c[j][1])
            out.append((g, tuple(vals)))
        return PIter(out)

    @native('map')
    def _(i, a, k):
        f = a[0]
        if len(a) > 2:
            z = i.call(B['zip'], list(a[1:]), {})
            src = [(g, list(v)) for g, v in iterate(i, z)]
        else:
            src = [(g, [v]) for g, v in iterate(i, a[1])]
        out = []
        pc0 = i.pc
        lost = 0
        for g, v in src:
            i.pc = i.m.and_(i.m.and_(pc0, g), i.m.not_(lost))
            if i.pc == 0:
                continue
            p = i.pc
            try:
                out.append((g, i.call(f, [i.read(x)[0] for x in v], {})))
            except DeadPath:
                i.pc = 0
            lost = i.m.or_(lost, i.m.and_(p, i.m.not_(i.pc)))
        i.pc = i.m.and_(pc0, i.m.not_(lost))
        if i.pc == 0:
            raise DeadPath()
        return PIter(out)

    @native('filter')
    def _(i, a, k):
        out = []
        pc0 = i.pc
        for g, v in iterate(i, a[1]):
            p = i.m.and_(i.pc, g)
            if p == 0:
                continue
            s = i.pc
            i.pc = p
            n = i.truth(v if a[0] is None else i.call(a[0], [v], {}))
            i.pc = s
            n = i.m.simplify(n, p)
            if n:
                out.append((i.m.and_(g, n), v))
        return PIter(out)

    @native('iter')
    def _(i, a, k):
        if len(a) == 2:
            return SentinelIter(a[0], a[1])
        if type(a[0]) is PIter:
            return a[0]
        if type(a[0]) is Obj:
            r = i.call_method(a[0], '__iter__', [])
            if type(r) is Obj or type(r) is PIter:
                return r
            if r is not ABSENT:
                return PIter(list(iterate(i, r)))
        return PIter(list(iterate(i, a[0])))
    native('next')(bi_next)

    @native('divmod')
    def _(i, a, k):
        if type(a[0]) is Obj:
            r = i.call_method(a[0], '__divmod__', [a[1]])
            if r is not ABSENT and r is not NotImplemented:
                return r
        return (i.binop('//', a[0], a[1]), i.binop('%', a[0], a[1]))

    @native('pow')
    def _(i, a, k):
        r = i.binop('**', a[0], a[1])
        return i.binop('%', r, a[2]) if len(a) > 2 else r

    @native('round')
    def _(i, a, k):
        if isint(a[0]):
            return a[0]
        return round(*a)

    def fmtint(spec):
        def f(i, a, k):
            v = to_index(i, a[0])
            return T.from_int(i, v, spec)
        return f
    hx = fmtint('#x')
    native('hex')(lambda i, a, k: '0xid' if type(a[0]) is IdVal else hx(i, a, k))
    native('oct')(fmtint('#o'))
    native('bin')(fmtint('#b'))
    native('chr')(lambda i, a, k: chr_(i, a[0]))

    @native('ord')
    def _(i, a, k):
        e = T.expand(i, a[0]) if is_text(a[0]) else None
        if e is None:
            raise Unsupported('ord')
        d = {}
        for t, g in e:
            if len(t) != 1:
                i.err_always('TypeError', 'ord() expected a character')
            d[ord(t)] = g
        if len(d) == 1:
            return list(d)[0]
        return pure_from_table(i.N, i.m, d)
    native('repr')(lambda i, a, k: py_repr(i, a[0]))
    native('ascii')(lambda i, a, k: py_repr(i, a[0]))
    native('format')(lambda i, a, k: format_value(i, a[0], a[1] if len(a) > 1 else ''))

    @native('print')
    def _(i, a, k):
        sep = k.get('sep', ' ')
        end = k.get('end', '\n')
        f = k.get('file')
        if type(f) is Obj:
            txt = [] if not a else [py_str(i, a[0])]
            for x in a[1:]:
                txt += [' ' if sep is None else sep, py_str(i, x)]
            i.call(i.getattr(f, 'write'), [concat(i, txt + ['\n' if end is None else end])], {})
            return
        i.out.append((i.pc, [py_str(i, x) for x in a], ' ' if sep is None else sep, '\n' if end is None else end))

    @native('input')
    def _(i, a, k):
        i.marks.append(len(i.out))
        if not i.script:
            i.err_always('EOFError')
        x = i.script.pop(0)
        while callable(x) and x is not KeyboardInterrupt:
            x()
            if not i.script:
                i.err_always('EOFError')
            x = i.script.pop(0)
        if x is KeyboardInterrupt:
            i.err_always('KeyboardInterrupt')
        return x
    native('raw_input')(lambda i, a, k: i.err_always('EOFError'))
    del B['raw_input']
    native('id')(lambda i, a, k: IdVal(a[0]))

    @native('hash')
    def _(i, a, k):
        v = a[0]
        if type(v) is Choice:
            return i.split(v.alts, lambda x: i.call(B['hash'], [x], {}))
        if type(v) is Obj:
            f = v.cls.find('__hash__')
            if f is not ABSENT and f is not None:
                return i.call(i.bind(f, v), [], {})
            if v.cls.find('__eq__') is not ABSENT and v.cls.fields is None:
                # __hash__ is inherited only from a class that also defines __eq__ later in the order
                i.err_always('TypeError', "unhashable type: '%s'" % v.cls.name)
            if v.cls.fields is not None:
                return HashVal(seq_data(i, v))
        if type(v) in (PList, PDict, PSet, PByteArray):
            i.err_always('TypeError', "unhashable type: '%s'" % type_name(v))
        return HashVal(v)
    native('callable')(lambda i, a, k: type(a[0]) in (PFunc, PBound, Native, PClass, NativeType) or (
        type(a[0]) is Obj and a[0].cls.find('__call__') is not ABSENT))
    native('vars')(lambda i, a, k: instance_extra(i, a[0], '__dict__') if a else ABSENT)

    @native('globals')
    def _(i, a, k):
        d = PDict(1)
        for kk, v in i.frames[-1].env.module.ns.items():
            d.k[('s', kk)] = kk
            d.d[('s', kk)] = v
        return d

    @native('locals')
    def _(i, a, k):
        raise Unsupported('locals()')

    @native('eval')
    def _(i, a, k):
        import ast
        src = a[0]
        if type(src) is not str:
            raise Unsupported('eval of a computed text')
        ns = {}
        here = i.frames[-1].env
        maps = [x for x in a[1:3] if x is not None]
        if not maps:
            raise Unsupported('eval in the current scope')
        for d in maps:
            if type(d) is not PDict or SYMS in d.k:
                raise Unsupported('eval in a computed scope')
            for kk in d.d:
                v, miss = i.read(d.d[kk])
                if miss or type(d.k[kk]) is not str:
                    raise Unsupported('eval in a computed scope')
                ns[d.k[kk]] = v
        try:
            tree = ast.parse(src.lstrip(' \t'), mode='eval')
        except SyntaxError as e:
            i.err_always('SyntaxError', str(e))
        mod = PModule(here.module.name, ns, here.module.file)
        env = Env(None, i.pc, None, 'module', mod)
        env.vars = ns
        fr = Frame(env, None)
        i.frames.append(fr)
        try:
            return i.ev(tree.body)
        finally:
            i.frames.pop()

    @native('open')
    def _(i, a, k):
        raise Unsupported('open')

    @native('dir')
    def _(i, a, k):
        raise Unsupported('dir')
    native('exit')(lambda i, a, k: i.err_always('SystemExit'))
    native('quit')(lambda i, a, k: i.err_always('SystemExit'))
    native('super')(lambda i, a, k: PSuper(a[0], a[1]))
    return B


class HashVal(NativeObj):
    """hash(v): equal for equal v; may differ otherwise."""

    def __init__(self, v):
        self.v = v

    def abs_eq(self, interp, other):
        # what is hashed is compared: different things hash alike only by accident
        return eq_node(interp, self.v, other.v)


class IdVal(NativeObj):
    def __init__(self, v):
        self.v = v

    def abs_eq(self, interp, other):
        return 1 if self.v is other.v else 0


def int_of_text(interp, v, base):
    N, m = interp.N, interp.m
    if type(v) is str:
        try:
            return int(v, base)
        except ValueError as e:
            interp.err_always('ValueError', str(e))
    ps = list(v.parts)
    if base in (0, 16) and isinstance(ps[0], str) and ps[0].lower() == '0x' and len(ps) == 2 and ps[1][0] == 'fmt' \
            and ps[1][1] in ('x', 'X') and N.rng(ps[1][2])[0] >= 0:
        return ps[1][2]
    if len(ps) == 1 and ps[0][0] == 'fmt' and ps[0][1] in ('d', '+d') and base in (0, 10):
        return ps[0][2]
    if len(ps) == 1 and ps[0][0] == 'fmt' and ps[0][1] in ('x', 'X') and base == 16:
        return ps[0][2]
    # digit by digit
    digs = []
    try:
        cs = T.chars(interp, v)
    except Unsupported:
        cs = None
    if cs is not None:
        neg = False
        if len(cs) > 1 and cs[0] in ('-', '+'):
            neg = cs[0] == '-'
            cs = cs[1:]
            if cs[0] in ('-', '+'):
                cs = None
    if cs is not None and base in (0, 2, 8, 16) and len(cs) > 2 and cs[0] == '0' and type(cs[1]) is str:
        q = {'x': 16, 'o': 8, 'b': 2}.get(cs[1].lower())
        if q and base in (0, q) and not (base == 16 and q == 2):
            cs, base = cs[2:], q
    if cs is not None and base == 0 and all(t in '123456789' for t in ([cs[0]] if type(cs[0]) is str else [t for t, g in cs[0].parts[0][1]])):
        base = 10
    if cs and base in (2, 8, 10, 16):
        ok = True
        for c in cs:
            alts = [(c, interp.pc)] if type(c) is str else c.parts[0][1]
            for t, g in alts:
                if t.lower() not in '0123456789abcdef'[:base]:
                    ok = False
            digs.append(alts)
        if ok:
            if base in (2, 8, 16):
                per = {2: 1, 8: 3, 16: 4}[base]
                bits = []
                for alts in reversed(digs):
                    for j in range(per):
                        if len(alts) == 1:
                            bits.append((int(alts[0][0], 16) >> j) & 1)
                        else:
                            bits.append(m.any_([g for t, g in alts if (int(t, 16) >> j) & 1]))
                return N.sub(0, N.from_bits(bits)) if neg else N.from_bits(bits)
            r = 0
            for alts in digs:
                r = N.add(N.mulc(r, base), N.lin(0, [(g, int(t, 16)) for t, g in alts]) if len(alts) > 1
                          else int(alts[0][0], 16))
            return N.sub(0, r) if neg else r
    e = T.expand(interp, v, cap=600)
    if e is not None:
        return interp.split([(g, t) for t, g in e], lambda t: int_of_text(interp, t, base))
    raise Unsupported('int() of abstract text')


# ---------------------------------------------------------- std modules ----
class Auto(NativeObj):
    enum_auto = True


class Sink(NativeObj):
    """Object whose methods exist and do nothing (logging and friends)."""

    def pget(self, interp, name):
        if name.startswith('__'):
            return ABSENT
        if name == 'setLevel':
            return Native(name, lambda i, a, k: i.levels.append((i.pc, a[0] if a else k.get('level'))))
        return Native(name, lambda i, a, k: None)


class ArgParserObj(NativeObj):
    """argparse.ArgumentParser: the unit gives the options and the file of the command line."""

    def __init__(self):
        self.args = []

    def pget(self, interp, name):
        if name.startswith('__'):
            return ABSENT
        if name == 'add_argument':
            return Native(name, lambda i, a, k: self.args.append((list(a), k)))
        if name == 'parse_args':
            return Native(name, self.parse)
        if name in ('add_argument_group', 'add_mutually_exclusive_group'):
            return Native(name, lambda i, a, k: self)
        return Native(name, lambda i, a, k: None)

    def parse(self, i, a, k):
        opts, file = i.cli
        if a or k:
            raise Unsupported('parse_args with arguments')
        ns = Obj(PClass('Namespace', [i.builtins['object']], {}), i.pc)
        known = set()
        for names, kw in self.args:
            if any(type(n) is not str for n in names) or not names:
                raise Unsupported('argument name')
            act = kw.get('action', 'store')
            if act in ('version', 'help'):
                continue
            if not names[0].startswith('-'):
                if kw.get('type') is not i.file_type:
                    raise Unsupported('positional argument that is not a file')
                ns.d[kw.get('dest', names[0]).replace('-', '_')] = file
                continue
            longs = [n for n in names if n.startswith('--')]
            dest = kw.get('dest') or (longs[0][2:] if longs else names[0][1:]).replace('-', '_')
            known.update(names)
            given = [opts[n] for n in names if n in opts]
            if not given:
                ns.d[dest] = kw.get('default', False if act == 'store_true' else None)
                continue
            v = given[0]
            if act == 'store_true':
                v = True
            elif act != 'store':
                raise Unsupported('argument action')
            elif kw.get('type') is not None:
                v = i.call(kw['type'], [v], {})
            if kw.get('choices') is not None:
                if not any(type(x) is str and x == v for x in i.sequence(kw['choices'])):
                    i.err_always('SystemExit', 2)
            ns.d[dest] = v
        for n in opts:
            if n not in known:
                i.err_always('SystemExit', 2)
        return ns


class OptionParserObj(NativeObj):
    """optparse.OptionParser: store_true/store options over constant words."""

    def __init__(self, add_help=True):
        self.opts = []
        self.add_help = add_help
        self.error_override = None

    def p_add_option(self, i, a, k):
        o = a[0] if a and isinstance(a[0], OptionObj) else OptionObj(a, k)
        self.opts.append(o)

    def p_parse_args(self, i, a, k):
        words = [x for x in i.sequence(a[0] if a else k['args'])]
        return parse_opts(i, self, words)


class OptionObj(NativeObj):
    def __init__(self, names, kw):
        self.names, self.kw = list(names), kw
        self.dest = kw.get('dest')
        if self.dest is None:
            longs = [n for n in self.names if n.startswith('--')]
            self.dest = (longs[0][2:] if longs else self.names[0][1:]).replace('-', '_')


def opt_defaults(i, parser):
    ns = Obj(PClass('Values', [i.builtins['object']], {}), i.pc)
    for o in parser.opts:
        ns.d[o.dest] = o.kw.get('default')
    return ns


class Setter(object):
    """Item assignment that writes through to an object."""

    def __init__(self, i, obj):
        self.i, self.obj = i, obj

    def __setitem__(self, k, v):
        self.i.write(self.obj.d, k, v, self.obj.birth)


class Target(object):
    def __init__(self, i, obj):
        self.d = Setter(i, obj)


def parse_opts(i, parser, words, error=None, values=None):
    given = opt_defaults(i, parser) if values is None else values
    if not isinstance(given, Obj):
        raise Unsupported('values of options')
    ns = Target(i, given)
    rest = []
    m = i.m

    def fail(msg):
        if error is not None:
            i.call(error, [msg], {})
        i.err_always('SystemExit', msg)
    words = list(words)
    stop = False
    while words:
        w = words.pop(0)
        if stop or (type(w) is AStr and isinstance(w.parts[0], str) and not w.parts[0].startswith('-')):
            rest.append(w)
            continue
        if type(w) is not str:
            raise Unsupported('symbolic option word')
        if w == '--':
            stop = True
            continue
        if len(w) < 2 or w[0] != '-':
            rest.append(w)
            continue
        if w.startswith('--'):
            name, eq, val = w.partition('=')
            cands = [o for o in parser.opts if any(n.startswith(name) for n in o.names if n.startswith('--'))]
            exact = [o for o in parser.opts if name in o.names]
            o = exact[0] if exact else cands[0] if len(cands) == 1 else None
            if o is None:
                fail('no such option: %s' % w)
            act = o.kw.get('action', 'store')
            if act == 'store_true':
                if eq:
                    fail('%s option does not take a value' % name)
                ns.d[o.dest] = True
            elif act == 'store':
                if eq:
                    ns.d[o.dest] = val
                elif words:
                    ns.d[o.dest] = words.pop(0)
                else:
                    fail('%s option requires 1 argument' % name)
            else:
                raise Unsupported('option action')
            continue
        j = 1
        while j < len(w):
            o = [x for x in parser.opts if '-' + w[j] in x.names]
            if not o:
                fail('no such option: -%s' % w[j])
            o = o[0]
            act = o.kw.get('action', 'store')
            if act == 'store_true':
                ns.d[o.dest] = True
                j += 1
            elif act == 'store':
                if j + 1 < len(w):
                    ns.d[o.dest] = w[j + 1:]
                elif words:
                    ns.d[o.dest] = words.pop(0)
                else:
                    fail('option requires an argument')
                break
            else:
                raise Unsupported('option action')
    return (given, PList(rest, i.pc))


def native_module(interp, name):
    mod = native_module1(interp, name)
    src = prelude.MODULES.get(name)
    if src is None:
        return mod
    if isinstance(mod, OpaqueModule) or mod is None:
        mod = PModule(name, {})
    lib = PModule(name, {'__name__': name}, None)
    lib.is_pkg = False
    lib.ns.update(mod.ns)
    lib.ns['_setraw'] = Native('_setraw', lambda i, a, k: i.write(a[0].d, a[1], a[2], a[0].birth))
    lib.ns['_datafields'] = Native('_datafields', lambda i, a, k: more.data_fields(i, a, k))
    lib.ns['_annotated'] = Native('_annotated', sd_annotated)
    env = Env(None, 1, None, 'module', lib)
    env.vars = lib.ns
    fr = Frame(env, None)
    pc0, interp.pc = interp.pc, 1
    loops, interp.loops = interp.loops, []
    journal, interp.journal = interp.journal, None          # outlives the unit that first uses it
    interp.frames.append(fr)
    try:
        interp.block(ast.parse(src).body)
    finally:
        interp.frames.pop()
        interp.loops = loops
        interp.journal = journal
        interp.pc = pc0
    for k, v in lib.ns.items():
        if isinstance(v, PFunc):
            v.library = True
    mod.ns = lib.ns
    return mod


def sd_annotated(interp, a, k):
    """singledispatch registration by annotation."""
    d, f = a
    ann = f.node.args.args[0].annotation if isinstance(f, PFunc) and f.node.args.args else None
    if ann is None:
        raise Unsupported('singledispatch registration')
    interp.frames.append(Frame(f.env, None))
    try:
        cls = interp.ev(ann)
    finally:
        interp.frames.pop()
    return interp.call(interp.getattr(d, 'register'), [cls, f], {})


def native_module1(interp, name):
    B = interp.builtins
    N = {}

    def fn(nm):
        def d(f):
            N[nm] = Native(nm, f)
            return f
        return d
    if name == 'six':
        N['integer_types'] = (B['int'],)
        N['string_types'] = (B['str'],)
        N['text_type'] = B['str']
        N['binary_type'] = B['bytes']
        N['class_types'] = (B['type'],)
        N['PY2'], N['PY3'] = False, True
        N['MAXSIZE'] = (1 << 63) - 1
        N['iteritems'] = Native('iteritems', lambda i, a, k: i.call(i.getattr(a[0], 'items'), [], {}))
        N['itervalues'] = Native('itervalues', lambda i, a, k: i.call(i.getattr(a[0], 'values'), [], {}))
        N['iterkeys'] = Native('iterkeys', lambda i, a, k: i.call(i.getattr(a[0], 'keys'), [], {}))
        N['b'] = Native('b', lambda i, a, k: a[0].encode('latin-1'))
        N['int2byte'] = Native('int2byte', lambda i, a, k: mkbytes((byte_check(i, a[0]),)))
        N['indexbytes'] = Native('indexbytes', lambda i, a, k: getitem(i, a[0], a[1]))
        mv = PModule('six.moves', {'range': B['range'], 'xrange': B['range'], 'map': B['map'], 'zip': B['zip'],
                                   'input': B['input'], 'filter': B['filter'],
                                   'reduce': native_module(interp, 'functools').ns['reduce']})
        N['moves'] = mv
    elif name == 'six.moves':
        return interp.load_module('six').ns['moves']
    elif name in ('collections', 'collections.abc'):
        seq = NativeType('Sequence', None, ('list', 'tuple', 'str', 'range', 'bytes', 'bytearray'))
        mseq = NativeType('MutableSequence', None, ('list', 'bytearray'))
        it = NativeType('Iterable', None, ('list', 'tuple', 'str', 'range', 'bytes', 'bytearray', 'dict', 'set',
                                           'generator'))
        mp = NativeType('Mapping', None, ('dict',))
        mset = NativeType('Set', None, ('set',))
        N.update({'Sequence': seq, 'MutableSequence': mseq, 'Iterable': it, 'Mapping': mp, 'MutableMapping': mp,
                  'Set': mset, 'Callable': NativeType('Callable', None, ('function', 'method', 'type'))})
        if name == 'collections':
            N['abc'] = PModule('collections.abc', dict(N))

            def namedtuple(i, a, k):
                fields = a[1]
                if type(fields) is str:
                    fields = fields.replace(',', ' ').split()
                else:
                    fields = [x for x in i.sequence(fields)]
                c = PClass(a[0], [B['object']], {})
                c.fields = list(fields)
                df = k.get('defaults')
                c.nt_defaults = {}
                if df is not None:
                    df = i.sequence(df)
                    c.nt_defaults = dict(zip(fields[len(fields) - len(df):], df))
                return c
            fn('namedtuple')(namedtuple)

            def ddict(i, a, k):
                d = PDict(i.pc, a[0] if a else None)
                if len(a) > 1:
                    dict_update(i, d, a[1])
                return d
            N['defaultdict'] = NativeType('defaultdict', ddict, ('dict',))
            N['OrderedDict'] = NativeType('OrderedDict', B['dict'].fn, ('dict',))

            def deque(i, a, k):
                if len(a) > 1 or k:
                    raise Unsupported('deque with a bound')
                l = B['list'].fn(i, a, {})
                l.deque = True
                return l
            N['deque'] = NativeType('deque', deque, ('list',))

            def counter(i, a, k):
                raise Unsupported('Counter')
            N['Counter'] = NativeType('Counter', counter, ('dict',))
    elif name == 'functools':
        def reduce_(i, a, k):
            f = a[0]
            m = i.m
            have = len(a) > 2
            acc = a[2] if have else None
            started = 1 if have else 0
            for g, v in iterate(i, a[1]):
                pc0 = i.pc
                p = m.and_(pc0, g)
                if p == 0:
                    continue
                v = i.read(v)[0]
                if started == 0:
                    if p != pc0:
                        first_g = g
                    acc = v
                    started = g if p != pc0 else 1
                    continue
                if m.implies(p, started):
                    i.pc = p
                    try:
                        r = i.call(f, [acc, v], {})
                        live = i.pc
                    except DeadPath:
                        r, live = None, 0
                    i.pc = m.or_(live, m.and_(pc0, m.not_(g)))
                    if i.pc == 0:
                        raise DeadPath()
                    if live:
                        acc = i.read(i.merge(g, r, acc))[0] if p != pc0 else r
                else:
                    raise Unsupported('reduce over guarded items')
            if started == 0:
                i.err_always('TypeError', 'reduce() of empty sequence with no initial value')
            if started != 1:
                i.err('TypeError', 'reduce() of empty sequence with no initial value', m.not_(started))
            return acc
        fn('reduce')(reduce_)

        def partial(i, a, k):
            f, pre = a[0], list(a[1:])
            return Native('partial', lambda j, b, kk: j.call(f, pre + list(b), dict(k, **kk)))
        fn('partial')(partial)
        def renamed(i, f, g):
            if isinstance(f, PFunc):
                for nm in ('__name__', '__doc__', '__qualname__'):
                    v = i.getattr(g, nm, None)
                    if v is not None:
                        f.attrs[nm] = v
                f.attrs['__wrapped__'] = g
            return f
        fn('wraps')(lambda i, a, k: Native('wraps', lambda j, b, kk: renamed(j, b[0], a[0])))
        fn('update_wrapper')(lambda i, a, k: renamed(i, a[0], a[1]))

        fn('lru_cache')(more.lru)
        fn('cache')(more.lru)
    elif name == 'operator':
        for nm, op in [('add', '+'), ('sub', '-'), ('mul', '*'), ('and_', '&'), ('or_', '|'), ('xor', '^'),
                       ('lshift', '<<'), ('rshift', '>>'), ('mod', '%'), ('floordiv', '//'), ('truediv', '/'),
                       ('pow', '**')]:
            def mk(op):
                return lambda i, a, k: i.binop(op, a[0], a[1])
            fn(nm)(mk(op))
        for nm, op in [('iadd', '+'), ('iand', '&'), ('ior', '|'), ('ixor', '^'), ('isub', '-')]:
            def mk2(op):
                return lambda i, a, k: i.binop(op, a[0], a[1], inplace=True)
            fn(nm)(mk2(op))
        for nm, op in [('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE')]:
            def mk3(op):
                return lambda i, a, k: i.compare(op, a[0], a[1])
            fn(nm)(mk3(op))
        fn('invert')(lambda i, a, k: i.unary('Invert', a[0]))
        fn('inv')(lambda i, a, k: i.unary('Invert', a[0]))
        fn('neg')(lambda i, a, k: i.unary('USub', a[0]))
        fn('pos')(lambda i, a, k: i.unary('UAdd', a[0]))
        fn('not_')(lambda i, a, k: i.unary('Not', a[0]))
        fn('index')(lambda i, a, k: to_index(i, a[0]))
        fn('truth')(lambda i, a, k: i.N.mkb(i.truth(a[0])))
        fn('getitem')(lambda i, a, k: getitem(i, a[0], a[1]))
        fn('contains')(lambda i, a, k: i.N.mkb(contains(i, a[0], a[1])))

        def attrgetter(i, a, k):
            def g(j, b, kk):
                def one(path):
                    v = b[0]
                    for p in path.split('.'):
                        v = j.getattr(v, p)
                    return v
                return one(a[0]) if len(a) == 1 else tuple(one(p) for p in a)
            return Native('attrgetter', g)
        fn('attrgetter')(attrgetter)

        def itemgetter(i, a, k):
            return Native('itemgetter', lambda j, b, kk: getitem(j, b[0], a[0]) if len(a) == 1 else tuple(
                getitem(j, b[0], x) for x in a))
        fn('itemgetter')(itemgetter)
        fn('methodcaller')(lambda i, a, k: Native('methodcaller', lambda j, b, kk: j.call(
            j.getattr(b[0], a[0]), a[1:], k)))
    elif name == 'enum':
        c = PClass('Enum', [B['object']], {})
        c.enum = True
        c.members = []
        N['Enum'] = c
        N['auto'] = Native('auto', lambda i, a, k: Auto())
        N['unique'] = Native('unique', lambda i, a, k: a[0])
        # IntEnum and IntFlag: prelude
    elif name == 'string':
        for nm in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits',
                   'punctuation', 'whitespace', 'printable'):
            N[nm] = getattr(_string, nm)
    elif name in ('logging', 'warnings'):
        for nm in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'basicConfig', 'warn',
                   'filterwarnings', 'simplefilter'):
            fn(nm)(lambda i, a, k: None)
        if name == 'logging':
            fn('basicConfig')(lambda i, a, k: i.levels.append((i.pc, k['level'])) if 'level' in k else None)
        for nm, v in [('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40), ('CRITICAL', 50), ('NOTSET', 0)]:
            N[nm] = v
        sink = Sink()
        fn('getLogger')(lambda i, a, k: sink)
        N['NullHandler'] = Native('NullHandler', lambda i, a, k: sink)
        N['StreamHandler'] = Native('StreamHandler', lambda i, a, k: sink)
    elif name == 'struct':
        N['error'] = B['struct.error']
        SZ = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8, 'b': 1, 'h': 2, 'i': 4, 'l': 4, 'q': 8}

        def codes(i, f):
            if type(f) is not str:
                raise Unsupported('struct format')
            order = '<'
            if f and f[0] in '<>!=@':
                order = '>' if f[0] in '>!' else '<'
                f = f[1:]
            out = []
            num = ''
            for c in f:
                if c.isdigit():
                    num += c
                    continue
                if c not in SZ:
                    raise Unsupported('struct code %s' % c)
                out.extend([c] * (int(num) if num else 1))
                num = ''
            return order, out

        def pack(i, a, k):
            order, cs = codes(i, a[0])
            if len(cs) != len(a) - 1:
                i.err_always('struct.error', 'pack expected %d items' % len(cs))
            items = []
            for c, v in zip(cs, a[1:]):
                v = to_index(i, v)
                n = SZ[c] * 8
                if c.isupper():
                    bad = i.m.or_(i.N.lt(v, 0), i.m.not_(i.N.lt(v, 1 << n)))
                else:
                    bad = i.m.or_(i.N.lt(v, -(1 << (n - 1))), i.m.not_(i.N.lt(v, 1 << (n - 1))))
                i.err('struct.error', 'argument out of range', bad)
                bits = i.N.bits(i.N.simplify(v, i.pc) if type(v) is SI else v, n)
                bs = [i.N.from_bits(bits[j:j + 8]) for j in range(0, n, 8)]
                items.extend(bs if order == '<' else bs[::-1])
            return mkbytes(items)
        fn('pack')(pack)

        def unpack(i, a, k, off=0, exact=True):
            order, cs = codes(i, a[0])
            d = iter_items(i, a[1])
            if type(d) is Choice:
                return i.split(d.alts, lambda x: unpack(i, [a[0], x], k, off, exact))
            tot = sum(SZ[c] for c in cs)
            if (exact and len(d) != tot) or len(d) - off < tot:
                i.err_always('struct.error', 'unpack requires a buffer of %d bytes' % tot)
            out = []
            p = off
            for c in cs:
                bs = list(d[p:p + SZ[c]])
                p += SZ[c]
                if order == '>':
                    bs.reverse()
                bits = []
                for b in bs:
                    bits.extend(i.N.bits(b, 8))
                out.append(i.N.from_bits(bits) if c.isupper() else i.N.signed_from_bits(bits))
            return tuple(out)
        fn('unpack')(unpack)

        def unpack_from(i, a, k):
            off = a[2] if len(a) > 2 else k.get('offset', 0)
            off = to_index(i, off)
            if type(off) is SI:
                raise Unsupported('unpack_from offset')
            return unpack(i, a[:2], k, off, False)
        fn('unpack_from')(unpack_from)
        fn('calcsize')(lambda i, a, k: sum(SZ[c] for c in codes(i, a[0])[1]))
    elif name == 'optparse':
        cls = PClass('OptionParser', [B['object']], {})

        def op_init(i, a, k):
            p = OptionParserObj(k.get('add_help_option', True))
            i.write(a[0].d, '_parser', p, a[0].birth)
            if p.add_help:
                pass
            ol = k.get('option_list')
            if ol is not None:
                for o in i.sequence(ol):
                    p.opts.append(o)

        def op_add(i, a, k):
            a[0].d['_parser'].p_add_option(i, list(a[1:]), k)

        def op_parse(i, a, k):
            p = a[0].d['_parser']
            words = a[1] if len(a) > 1 else k.get('args')
            if words is None:
                raise Unsupported('options of the command line')
            return parse_opts(i, p, i.sequence(words), i.getattr(a[0], 'error'), a[2] if len(a) > 2 else k.get('values'))

        def op_error(i, a, k):
            i.err_always('SystemExit', 'option error')
        cls.ns.update({'__init__': Native('OptionParser.__init__', op_init),
                       'add_option': Native('add_option', op_add),
                       'parse_args': Native('parse_args', op_parse),
                       'get_default_values': Native('get_default_values', lambda i, a, k: opt_defaults(i, a[0].d['_parser'])),
                       'error': Native('error', op_error),
                       'exit': Native('exit', op_error),
                       'print_help': Native('print_help', lambda i, a, k: None)})
        import optparse

        def later(n):
            def f(i, a, k):
                raise Unsupported('OptionParser.' + n)
            return Native(n, f)
        for n in dir(optparse.OptionParser):
            if not n.startswith('__') and n not in cls.ns:
                cls.ns[n] = later(n)
        N['OptionParser'] = cls
        N['make_option'] = Native('make_option', lambda i, a, k: OptionObj(a, k))
        N['Option'] = N['make_option']
    elif name == 'argparse':
        N['ArgumentParser'] = Native('ArgumentParser', lambda i, a, k: ArgParserObj())
        mark = Native('FileType()', lambda i, a, k: None)
        N['FileType'] = Native('FileType', lambda i, a, k: mark)
        interp.file_type = mark
    elif name == 'os':
        N['name'] = 'posix'
        N['linesep'] = '\n'
        N['environ'] = PDict(1)
        N['path'] = PModule('os.path', {})
    elif name == 'sys':
        N['exit'] = Native('exit', lambda i, a, k: i.err_always('SystemExit', a[0] if a else None))
        N['version_info'] = (3, 9, 0, 'final', 0)
        N['maxsize'] = (1 << 63) - 1
        N['argv'] = PList([''], 1)
        N['byteorder'] = 'little'

        class Stdout(NativeObj):
            def p_write(self, i, a, k):
                i.out.append((i.pc, [a[0]], '', ''))

            def p_flush(self, i, a, k):
                return None
        N['stdout'] = Stdout()
        N['stderr'] = Sink()
        N['modules'] = PDict(1)
    elif name == 'traceback':
        for nm in ('print_exc', 'format_exc', 'print_stack'):
            fn(nm)(lambda i, a, k: None)
    elif name == 'math':
        fn('ceil')(lambda i, a, k: _ceil(i, a[0]))
        fn('floor')(lambda i, a, k: _ceil(i, a[0], True))

        import math

        def mono(name, host, least):
            def f(i, a, k):
                v = a[0]
                base = a[1] if len(a) > 1 else None
                if len(a) > 2 or base is not None and (name != 'log' or type(base) not in (int, float) or base <= 1):
                    raise Unsupported('math.' + name)
                h = host if base is None else lambda x: math.log(x, base)
                if type(v) is Choice:
                    return i.split(v.alts, lambda x: f(i, [x] + list(a[1:]), k))
                if type(v) in (bool, SB):
                    v = i.N.b2i(v)
                if type(v) in (int, float):
                    if v < 0 or v == 0 and name != 'sqrt':
                        i.err_always('ValueError', 'math domain error')
                    return h(v)
                if type(v) is Obj:
                    for nm in ('__float__', '__index__'):
                        if v.cls.find(nm) is not ABSENT:
                            raise Unsupported('math.' + name)
                    i.err_always('TypeError', 'must be real number, not %s' % type_name(v))
                if type(v) is not SI:
                    if type(v) in (FloatQ, MonoQ) or isinstance(v, NativeObj):
                        raise Unsupported('math.' + name)
                    i.err_always('TypeError', 'must be real number, not %s' % type_name(v))
                i.err('ValueError', 'math domain error', i.N.lt(v, least))
                return MonoQ(i.N.simplify(v, i.pc), h)
            return f
        fn('log2')(mono('log2', math.log2, 1))
        fn('log')(mono('log', math.log, 1))
        fn('log10')(mono('log10', math.log10, 1))
        fn('sqrt')(mono('sqrt', math.sqrt, 0))
    elif name == 'itertools':
        def chain(i, a, k):
            out = []
            for x in a:
                out.extend(iterate(i, x))
            return PIter(out)
        fn('chain')(chain)

        def count(i, a, k):
            p = PIter(a[0] if a else k.get('start', 0), isgen='count')
            p.ret = a[1] if len(a) > 1 else k.get('step', 1)
            if type(p.ret) is not int:
                raise Unsupported('step of a counter')
            return p
        fn('count')(count)

        def rep(i, a, k):
            if len(a) < 2:
                raise Unsupported('endless repeat')
            n = to_index(i, a[1])
            return PIter([(g, a[0]) for g, _ in iterate(i, PRange(0, n, 1))])
        fn('repeat')(rep)

        def product(i, a, k):
            cols = [i.sequence(x) for x in a] * k.get('repeat', 1)
            import itertools
            return PIter([(1, t) for t in itertools.product(*cols)])
        fn('product')(product)


        def takewhile(i, a, k):
            out = []
            keep = 1
            for g, v in iterate(i, a[1]):
                pc0 = i.pc
                i.pc = i.m.and_(i.m.and_(pc0, g), keep)
                if i.pc == 0:
                    i.pc = pc0
                    continue
                n = i.truth(i.call(a[0], [v], {}))
                i.pc = pc0
                keep = i.m.and_(keep, i.m.or_(i.m.not_(g), n))
                out.append((i.m.and_(g, keep), v))
            return PIter(out)
        fn('takewhile')(takewhile)
    elif name == 'copy':
        def copy_(i, a, k):
            v = a[0]
            if type(v) is Choice:
                return i.split(v.alts, lambda x: copy_(i, [x], k))
            if type(v) is Obj:
                o = Obj(v.cls, i.pc)
                o.d = dict(v.d)
                return o
            if type(v) in (PList, PByteArray, PSet):
                o = type(v)((), i.pc)
                o.d['data'] = seq_data(i, v)
                return o
            if type(v) is PDict:
                o = PDict(i.pc, v.default)
                o.d, o.k = dict(v.d), dict(v.k)
                return o
            return v
        fn('copy')(copy_)

        def deepcopy(i, a, k, memo=None):
            memo = {} if memo is None else memo
            v = a[0]
            if id(v) in memo:
                return memo[id(v)]
            if type(v) is Choice:
                return Choice([(g, deepcopy(i, [x], k, memo)) for g, x in v.alts])
            if type(v) is tuple:
                return tuple(deepcopy(i, [x], k, memo) for x in v)
            if type(v) is Obj and v.cls.enum:
                return v
            if type(v) in (Obj, PList, PByteArray, PSet, PDict):
                o = copy_(i, [v], k)
                memo[id(v)] = o
                o.d = dict((x, deepcopy(i, [y], k, memo)) for x, y in o.d.items())
                return o
            return v
        fn('deepcopy')(deepcopy)
    elif name == 'types':
        N['FunctionType'] = B['function']
        N['MethodType'] = B['function']
    elif name == 're':
        more.re_module(interp, N)
    elif name == 'contextlib':
        def ctxm(i, a, k):
            f = a[0]
            return more.CMFactory(f)
        fn('contextmanager')(ctxm)
        fn('redirect_stdout')(lambda i, a, k: (_ for _ in ()).throw(Unsupported('redirect_stdout')))
    elif name in ('typing', 'time', 'abc', 'io', 'textwrap', 'shlex', 'readline',
                  'pprint', 'binascii', 'random', 'ctypes', 'array', 'threading', 'pkg_resources', 'numbers',
                  'dataclasses', 'bisect', 'heapq', 'subprocess', 'inspect', 'importlib'):
        if name == 'numbers':
            N['Integral'] = NativeType('Integral', None, ('int', 'bool'))
            N['Number'] = NativeType('Number', None, ('int', 'bool', 'float'))
        elif name == 'typing':
            class Typ(NativeObj):
                def pget(self, interp, nm):
                    if nm == '__getitem__':
                        return Native('getitem', lambda i, a, k: self)
                    return ABSENT
            for nm in ('Any', 'List', 'Dict', 'Tuple', 'Optional', 'Union', 'Iterable', 'Sequence', 'Callable', 'Set',
                       'Iterator', 'Generator', 'Type', 'Mapping', 'MutableMapping', 'MutableSequence', 'FrozenSet', 'ClassVar', 'Final',
                       'Literal', 'AnyStr', 'ByteString', 'Text', 'Hashable', 'Sized', 'DefaultDict', 'Deque', 'NoReturn', 'SupportsInt'):
                N[nm] = Typ()
            N['TYPE_CHECKING'] = False
            fn('cast')(lambda i, a, k: a[1])
            fn('TypeVar')(lambda i, a, k: Typ())
            fn('NewType')(lambda i, a, k: Native(a[0], lambda j, b, kk: b[0]))
            fn('overload')(lambda i, a, k: a[0])
            fn('final')(lambda i, a, k: a[0])
            nt = PClass('NamedTuple', [B['object']], {})
            nt.typed_tuple = True
            N['NamedTuple'] = nt
        elif name == 'abc':
            def abstract(i, a, k):
                if isinstance(a[0], PFunc):
                    a[0].abstract = True
                return a[0]
            fn('abstractmethod')(abstract)
            N['ABC'] = PClass('ABC', [B['object']], {})
            N['ABC'].abstract = True
            N['ABCMeta'] = PClass('ABCMeta', [B['object']], {})
        else:
            return OpaqueModule(name)
    elif name.split('.')[0] in STDLIB:
        return OpaqueModule(name)
    else:
        return None
    return PModule(name, N)


class OpaqueModule(PModule):
    pass


STDLIB = set(getattr(sys, 'stdlib_module_names', ()))


def module_attr(interp, mod, name):
    if mod.name == 'six' and name == 'moves':
        return mod.ns['moves']
    if mod.name == 'six' and name in more.SIX or mod.name == 'six.moves':
        raise Unsupported('%s.%s' % (mod.name, name))
    if isinstance(mod, OpaqueModule):
        raise Unsupported('module %s' % mod.name)
    real = {'six': None}.get(mod.name, mod.name)
    if real and mod.file is None:
        # a modelled standard module: does the real one have it?
        try:
            import importlib
            if hasattr(importlib.import_module(real), name):
                raise Unsupported('%s.%s is not modelled' % (mod.name, name))
        except ImportError:
            raise Unsupported('module %s' % real)
    return ABSENT


def _ceil(interp, v, floor=False):
    import math
    if isint(v):
        return v
    if type(v) is float:
        return math.floor(v) if floor else math.ceil(v)
    if type(v) is MonoQ:
        return v.map(interp, math.floor if floor else math.ceil)
    if type(v) is FloatQ and floor and (type(v.b) is SI or v.b > 0):
        return v.trunc(interp)
    raise Unsupported('ceil')
