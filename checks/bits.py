"""Bit strings: C19 - C26."""
from absint.num import SI, SB, Unsupported, TooLarge
from absint.values import *
from absint.session import Session
from absint import text as T
from absint.natives import int_binop
from .report import Report
from .bench import Bench

MODULES = ('cmdis', 'cmdis.bitstring')
DRV = 'driver_bits'
SRC = '''
from cmdis.bitstring import bitstring, bit0, bit1, zeros, ones
def make(v, w): return bitstring(v, w)
def make1(v): return bitstring(v)
def empty(): return bitstring()
def emptyw(w): return bitstring(width=w)
def obs(x): return (x.width, x.unsigned)
def probe(x): return (len(x), int(x), x.value, x.mask, (~x).unsigned, (x + 1).unsigned, (x << 1).unsigned)
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def floordiv(a, b): return a // b
def lshift(a, b): return a << b
def rshift(a, b): return a >> b
def and_(a, b): return a & b
def or_(a, b): return a | b
def xor(a, b): return a ^ b
def mod(a, b): return a % b
def inv(a): return ~a
def iadd(a, b):
    a += b
    return a
def isub(a, b):
    a -= b
    return a
def imul(a, b):
    a *= b
    return a
def ifloordiv(a, b):
    a //= b
    return a
def ilshift(a, b):
    a <<= b
    return a
def irshift(a, b):
    a >>= b
    return a
def iand(a, b):
    a &= b
    return a
def ior(a, b):
    a |= b
    return a
def ixor(a, b):
    a ^= b
    return a
def imod(a, b):
    a %= b
    return a
def eq(a, b): return a == b
def ne(a, b): return a != b
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def hashes(a, b): return hash(a) == hash(b)
def truth(a): return bool(a)
def branch(a):
    if a:
        return 1
    return 0
def as_len(a): return len(a)
def as_int(a): return int(a)
def as_index(a): return list(range(3))[a:][:1] and 0 or 0
def get(a, i): return a[i]
def getslice(a, i, j, k): return a[i:j:k]
def setbit(a, i, v):
    a[i] = v
    return a
def setslice(a, i, j, v):
    a[i:j] = v
    return a
def setstep(a, i, j, k, v):
    a[i:j:k] = v
    return a
def bits(a): return list(a)
def signed(a): return a.signed
def unsigned(a): return a.unsigned
def value(a): return a.value
def inverted(a): return a.inverted
def reversed_(a): return a.reversed
def width(a): return a.width
def mask(a): return a.mask
def binary(a): return a.binary_string
def as_bytes(a): return list(a.bytes)
def base(a, n): return a.base_string(n)
def base0(a): return a.base_string()
def as_repr(a): return repr(a)
def as_str(a): return str(a)
def get_bit(a, i): return a.get_bit(i)
def get_bit_value(a, i): return a.get_bit_value(i)
def bit_count(a): return a.bit_count()
def is_zero(a): return a.is_zero()
def is_ones(a): return a.is_ones()
def is_zero_bit(a): return a.is_zero_bit()
def is_ones_bit(a): return a.is_ones_bit()
def lowest(a): return a.lowest_set_bit()
def highest(a): return a.highest_set_bit()
def sign_extend(a, w): return a.sign_extend(w)
def zero_extend(a, w): return a.zero_extend(w)
def reverse(a):
    a.reverse()
    return a
def invert(a):
    a.invert()
    return a
def setto(a, b):
    a.set(b)
    return a
def setvalue(a, v):
    a.value = v
    return a
def setwidth(a, w):
    a.width = w
    return a
def zeros_(n): return zeros(n)
def ones_(n): return ones(n)
def bitconst(): return (bit0.width, bit0.unsigned, bit1.width, bit1.unsigned)
def from_list(items): return bitstring(items)
def from_tuple(*items): return bitstring(tuple(items))
def from_bytearray(b): return bitstring(bytearray(b))
def poke(a, b):
    a += b
    a[0] = 1
    a.invert()
    a.width = 1
def survey_C21(a):
    w = a.width
    rs = [a + 1, a - 1, ~a, a << 1, a >> 1, a & 5, a | 5, a ^ 5, a * 2, a // 2, a.inverted, 1 + a, 3 & a]
    return tuple([r.width for r in rs] + [r.unsigned for r in rs])
def survey_C22(a):
    w = a.width
    rs = [a[0], a[-1], a[w - 1], a[:], a[1:], a[:w - 1], a[::-1], a[::2], a[0:4], a.reversed, a.sign_extend(w + 3),
          a.zero_extend(w + 3), a % '10', a % a]
    return tuple([r.width for r in rs] + [r.unsigned for r in rs] + [int(r) for r in a])
def survey_C23(a):
    f = bitstring(a.unsigned, a.width)
    return (a == f, a != f, a < f, a <= f, f <= a, hash(a) == hash(f), bool(a), a == 5, a < 5, a == a.binary_string)
def survey_C25(a):
    f = bitstring(a)
    g = bitstring(a, a.width + 2)
    return (a.width, a.unsigned, a.value, int(a), len(a), a.mask, a.signed, f.width, f.unsigned, g.width, g.unsigned) + tuple(a.bytes)
def texts(a):
    return (a.binary_string, repr(a), str(a), a.base_string(2), a.base_string(16))
def survey_C26(a):
    w = a.width
    rs = [a.get_bit(0), a.get_bit(w - 1), a.is_zero_bit(), a.is_ones_bit()]
    return tuple([a.get_bit_value(0), a.get_bit_value(w - 1), a.bit_count(), a.lowest_set_bit(), a.highest_set_bit(), a.is_zero(), a.is_ones()]
                 + [r.width for r in rs] + [r.unsigned for r in rs])
def spoil(r):
    r += 1
    if r.width:
        r[0] = 1
    r.invert()
    r.value = 0
    r.width = r.width + 3
def poke_C21(a):
    for r in [a + 1, a - 1, ~a, a << 1, a >> 1, a & 5, a | 5, a ^ 5, a * 2, a // 2, a.inverted, 1 + a, 3 & a,
              a + 0, a - 0, a << 0, a >> 0, a & -1, a | 0, a ^ 0, a * 1, a // 1, 0 + a, a | a, a & a]:
        spoil(r)
def poke_C22(a):
    w = a.width
    for r in [a[0], a[-1], a[w - 1], a[:], a[0:w], a[1:], a[:w - 1], a[::-1], a[::2], a[0:4], a[0:1], a.reversed, a.sign_extend(w + 3),
              a.zero_extend(w + 3), a % '10', a % a, a % bitstring()]:
        spoil(r)
def poke_C25(a):
    for r in [bitstring(a), bitstring(a, a.width + 2), bitstring(a, a.width), bitstring(a, 1), zeros(a.width), ones(a.width), zeros(1), ones(1),
              bitstring(0, 1), bitstring(1, 1), bitstring('1'), bitstring(), bitstring(5), bitstring([1]), bitstring('101')]:
        spoil(r)
    a.bytes.append(7)
def poke_C26(a):
    for r in [a.get_bit(0), a.get_bit(a.width - 1), a.is_zero_bit(), a.is_ones_bit()]:
        spoil(r)
def consts():
    rs = [bit0, bit1, zeros(3), ones(3), zeros(1), ones(1), bitstring(0, 1), bitstring(1, 1), bitstring(), bitstring('1'), bitstring(5), bitstring('101')]
    return tuple([r.width for r in rs] + [r.unsigned for r in rs])
def producer(a, how, n, t, o):
    if how == '~': return ~a
    if how == 'reversed': return a.reversed
    if how == 'slice': return a[1:]
    if how == 'backwards': return a[::-1]
    if how == 'one bit': return a[0]
    if how == '+': return a + n
    if how == '-': return a - n
    if how == '*': return a * 3
    if how == '//': return a // 2
    if how == '<<': return a << 1
    if how == '>>': return a >> 1
    if how == '&': return a & o
    if how == '|': return a | o
    if how == '^': return a ^ o
    if how == '% text': return a % t
    if how == '% bits': return a % o
    if how == '+ reflected': return n + a
    if how == 'zero_extend': return a.zero_extend(a.width + 3)
    if how == 'sign_extend': return a.sign_extend(a.width + 3)
    if how == 'copy': return bitstring(a)
    if how == 'wider copy': return bitstring(a, a.width + 2)
    if how == 'narrower copy': return bitstring(a, a.width - 1)
    if how == 'negative': return bitstring(-1 - n, a.width)
    if how == 'bytes': return bitstring(a.bytes)
    if how == 'bits': return bitstring(list(a))
    if how == 'text': return bitstring(a.binary_string)
    if how == 'text of other width': return bitstring(a.binary_string, a.width - 1)
    if how == 'zeros': return zeros(4)
    if how == 'ones': return ones(4)
    return mutate(a, how, n, t, o)
def mutate(a, how, n, t, o):
    if how == 'bit 0': a[0] = n
    elif how == 'bit -1': a[-1] = n
    elif how == 'bit 1': a[1] = bitstring(n, 1)
    elif how == 'slice': a[0:2] = n
    elif how == 'whole slice': a[:] = n
    elif how == 'slice of bits': a[1:] = o
    elif how == '+=': a += n
    elif how == '+= bits': a += o
    elif how == '-=': a -= n
    elif how == '*=': a *= 3
    elif how == '//=': a //= 2
    elif how == '&=': a &= n
    elif how == '|=': a |= n
    elif how == '|= bits': a |= o
    elif how == '^=': a ^= n
    elif how == '<<=': a <<= 1
    elif how == '>>=': a >>= 1
    elif how == '%=': a %= t
    elif how == 'set': a.set(o)
    elif how == 'value': a.value = n
    elif how == 'width': a.width = a.width + 2
    elif how == 'narrow': a.width = a.width - 1
    elif how == 'reverse': a.reverse()
    elif how == 'invert': a.invert()
    elif how == 'set then value':
        a.set(o)
        a.value = n
    elif how == 'twice':
        a[0] = n
        a[0] = 1 - bitstring(n, 1).unsigned
    elif how == 'in a copy':
        c = bitstring(a)
        c += n
        c.invert()
        c[0] = n
    elif how == 'in an extension':
        c = a.zero_extend(a.width + 1)
        c += n
        c.invert()
    return a
'''
HOW = ('bit 0', 'bit -1', 'bit 1', 'slice', 'whole slice', 'slice of bits', '+=', '+= bits', '-=', '*=', '//=', '&=', '|=', '|= bits', '^=', '<<=',
       '>>=', '%=', 'set', 'value', 'width', 'narrow', 'reverse', 'invert', 'set then value', 'twice', 'in a copy', 'in an extension')

MADE = ('~', 'reversed', 'slice', 'backwards', 'one bit', '+', '-', '*', '//', '<<', '>>', '&', '|', '^', '% text', '% bits', '+ reflected', 'zero_extend',
        'sign_extend', 'copy', 'wider copy', 'narrower copy', 'negative', 'bytes', 'bits', 'text', 'text of other width', 'zeros', 'ones')
THEN = ('bit 0', 'bit -1', 'slice', 'whole slice', '+=', '-=', '*=', '//=', '&=', '|= bits', '^=', '<<=', '>>=', '%=', 'value', 'width', 'narrow', 'reverse', 'invert')


# particular operands, for what cannot be decided for all
PATTERNS = (0x123456789abcdef0fedcba9876543211, (1 << 200) - 1, 0x80000000800080800000000080008080, 5, 0x100000001000101fffffffff7fff7f7e, 1)


class Bits(Bench):
    def __init__(self, S, rep, unit, only):
        S.driver(DRV, SRC)
        Bench.__init__(self, S, DRV, rep, unit, only)
        rep.units.add(unit)
        self.fix = None

    def sym(self, name, w, signed=False):
        if self.fix is None:
            return Bench.sym(self, name, w, signed)
        v = PATTERNS[(self.fix + sum(map(ord, name))) % len(PATTERNS)] & ((1 << w) - 1)
        return v - (1 << w) if signed and v >> (w - 1) else v

    def bs(self, name, w):
        """A bit string of width w with arbitrary value: (object, value)."""
        v = self.sym(name, w) if w else 0
        return self.value('make', v, w), v

    # ---- expectations about bit strings
    def view(self, x, care):
        """[(guard, width, value)] of a bit string."""
        saved, self.care = self.care, care
        try:
            r, live, raised = self.run('obs', x)
        finally:
            self.care = saved
        out = []
        for g, t in self.I.alts(r):
            g = self.m.and_(g, live)
            if g:
                out.append((g, t[0], t[1]))
        return out

    def fits(self, rule, x, care):
        """C19 for a result: value in range, and the representation keeps later results in range."""
        if not self.wants('C19'):
            return
        m, N = self.m, self.N
        for g, w, v in self.view(x, care):
            for h, w1 in self.I.alts(w):
                gg = m.and_(g, h)
                for w2, h2 in self.N.values(w1, gg) if type(w1) is SI else [(w1, gg)]:
                    h2 = m.and_(h2, gg)
                    if h2 == 0:
                        continue
                    self.in_range(rule, v, w2, h2)
                    saved, self.care = self.care, h2
                    try:
                        r, live, raised = self.run('probe', x)
                    finally:
                        self.care = saved
                    if live != h2:
                        self.cmp.raises('C19', rule, raised, h2)
                        continue
                    for q, t in self.I.alts(r):
                        q = m.and_(q, h2)
                        if q == 0:
                            continue
                        for y in t[1:3] + t[4:]:
                            self.in_range(rule, y, w2, q)

    def in_range(self, rule, v, w, care):
        for g, x in self.I.alts(v):
            g = self.m.and_(g, care)
            if g == 0:
                continue
            if type(x) not in (int, SI):
                self.cmp.never('C19', rule, g, care, self.loc, 'the value is of type %s' % self.I.nat.type_name(x))
                continue
            N = self.N
            bad = self.m.or_(N.lt(x, 0), self.m.not_(N.lt(x, 1 << w)))
            self.cmp.never('C19', rule, bad, g, self.loc, 'the value does not fit %d bits' % w)

    def is_bs(self, props, rule, x, w, v, care=None):
        """x is a bit string of width w and value v; also C19."""
        care = self.care if care is None else care
        I, m, c = self.I, self.m, self.cmp
        cls = self.S.get('cmdis.bitstring', 'bitstring')
        good = 0
        for g, o in I.alts(x):
            g = m.and_(g, care)
            if g == 0:
                continue
            if not (isinstance(o, Obj) and cls in o.cls.mro):
                for p in props:
                    c.never(p, rule, g, care, self.loc, 'the result is of type %s' % I.nat.type_name(o))
            else:
                good = m.or_(good, g)
        if good:
            for g, w1, v1 in self.view(x, good):
                for p in props:
                    if self.wants(p):
                        if w is not None:
                            self.num([p], rule, w1, w, g, 'the width')
                        if v is not None:
                            self.num([p], rule, v1, v, g, 'the value')
            self.fits(rule, x, good)

    def same(self, rule, x, w, v, care=None):
        """C20: x still has width w and value v."""
        if not self.wants('C20'):
            return
        care = self.care if care is None else care
        for g, w1, v1 in self.view(x, care):
            self.num(['C20'], rule, w1, w, g, 'the width of the operand')
            self.num(['C20'], rule, v1, v, g, 'the value of the operand')

    def call_loc(self, name):
        f = self.S.get('cmdis.bitstring', 'bitstring')
        g = f.find(name) if isinstance(f, PClass) else None
        return 'cmdis/bitstring.py:bitstring.%s' % name

    # ---- one operator
    def op(self, props, fn, name, a, b, w, v, keep=(), fresh=None):
        """result of fn(a, b) is the bit string (w, v); operands in keep = [(obj, w, v)] unchanged."""
        self.loc = self.call_loc(name)
        args = [x for x in (a, b) if x is not NOARG]
        r, live, raised = self.run(fn, *args)
        self.fine(props, name, raised)
        if live:
            self.is_bs(props, name, r, w, v, live)
        for o, ow, ov in keep:
            self.same(name, o, ow, ov)
        if fresh and live and self.wants('C20'):
            o, ow, ov = fresh
            saved, self.care = self.care, live
            try:
                x, l2, rs = self.run('poke', r, 3)
                if l2:
                    self.care = l2
                    self.same(name + ' (result is a new object)', o, ow, ov)
            finally:
                self.care = saved
        return r, live


class _NoArg(object):
    pass


NOARG = _NoArg()
UNARY = object()


def operands(b, w, w2, kinds):
    """[(kind, operand, value, keep)] for the right side."""
    out = []
    for kind in kinds:
        if kind == 'bits':
            o, v = b.bs('b', w2)
            out.append((kind, o, v, [(o, w2, v)]))
        elif kind == 'int':
            v = b.sym('n', 40, signed=True)
            out.append((kind, v, v, []))
        elif kind == 'text':
            v = b.sym('t', w2)
            out.append((kind, b.bintext(v, w2), v, []))
        else:
            out.append((kind, kind, kind, []))
    return out


def g_arith(b, w, w2):
    N, k = b.N, b.k
    for fn, name, f in (('add', '__add__', N.add), ('sub', '__sub__', N.sub), ('mul', '__mul__', N.mul)):
        kinds = ['bits', 'int', 'text'] + ([0, 1, -1, 3, 1 << 40] if fn == 'mul' else [])
        if fn == 'mul' and w * w2 > 144:
            kinds = kinds[3:] + (['bits'] if min(w, w2) > 8 else [])
        for kind, o, v, keep in operands(b, w, w2, kinds):
            b.unit = 'bit string of %d bits %s %s' % (w, name, kind if kind != 'bits' else 'bit string of %d bits' % w2)
            a, av = b.bs('a', w)
            b.op(['C21'], fn, name, a, o, w, N.mod2(f(av, v), w), [(a, w, av)] + keep, (a, w, av))
            a, av = b.bs('a', w)
            b.op(['C21'], 'i' + fn, '__i%s' % name[2:], a, o, w, N.mod2(f(av, v), w), keep)
    for d in (1, 2, 3, 5, 8, 10, 1 << 31, -1, -2):
        b.unit = 'bit string of %d bits // %d' % (w, d)
        for o, keep in ((d, []),) + (((b.value('make', d, w2), [(None, w2, d)]),) if 0 < d < (1 << w2) else ()):
            a, av = b.bs('a', w)
            q = floordiv(b, av, w, d)
            if q is None:
                continue
            keep = [(o if x is None else x, y, z) for x, y, z in keep]
            b.op(['C21'], 'floordiv', '__floordiv__', a, o, w, q, [(a, w, av)] + keep, (a, w, av))
            a, av = b.bs('a', w)
            b.op(['C21'], 'ifloordiv', '__ifloordiv__', a, o, w, q, keep)
    for kind, o, v, keep in operands(b, w, w2, ['bits', 'text']):
        b.unit = 'bit string of %d bits // %s' % (w, kind)
        saved, b.care = b.care, b.m.and_(b.care, b.m.not_(N.eq(v, 0)))
        for fn, name in (('floordiv', '__floordiv__'), ('ifloordiv', '__ifloordiv__')):
            a, av = b.bs('a', w)
            pc, b.I.pc = b.I.pc, b.m.and_(b.I.pc, b.care)
            q = quotient(b, av, v, w)
            b.I.pc = pc
            b.op(['C21'], fn, name, a, o, w, q, [(a, w, av)] + keep if fn == 'floordiv' else keep)
        b.care = saved


def floordiv(b, av, w, d):
    """Exact quotient modulo 2^w: a power of two, or by cases for a narrow operand."""
    N = b.N
    if d > 0 and d & (d - 1) == 0:
        return N.mod2(N.shr(av, d.bit_length() - 1), w)
    if d == -1:
        return N.mod2(N.neg(av), w)
    if w > 8:
        return quotient(b, av, d, w)
    out = None
    for x, g in N.values(av, 1, 300):
        q = (x // d) % (1 << w)
        out = q if out is None else N.ite(g, q, out)
    return out


def quotient(b, av, d, w):
    """Quotient of two wide numbers, as an uninterpreted function of them."""
    if type(d) is int and d < 0:
        return None
    return b.N.mod2(int_binop(b.I, '//', av, d), w)


def g_bitwise(b, w, w2):
    N = b.N
    for fn, name, f in (('and_', '__and__', N.band), ('or_', '__or__', N.bor), ('xor', '__xor__', N.bxor)):
        ifn = {'and_': 'iand', 'or_': 'ior', 'xor': 'ixor'}[fn]
        for kind, o, v, keep in operands(b, w, w2, ['bits', 'int', 'text', 0, -1, 1]):
            b.unit = 'bit string of %d bits %s %s' % (w, name, kind if kind != 'bits' else 'bit string of %d bits' % w2)
            rw = max(w, w2) if kind == 'bits' and fn != 'and_' else w
            want = N.mod2(f(av_(b, w), v), rw)
            a, av = b.bs('a', w)
            b.op(['C21'], fn, name, a, o, rw, want, [(a, w, av)] + keep, (a, w, av))
            a, av = b.bs('a', w)
            b.op(['C21'], ifn, '__i' + name[2:], a, o, rw, want, keep)
    b.unit = 'bit string of %d bits ~' % w
    a, av = b.bs('a', w)
    b.op(['C21'], 'inv', '__invert__', a, NOARG, w, N.sub((1 << w) - 1, av), [(a, w, av)], (a, w, av))


def av_(b, w):
    return b.sym('a', w)


def g_shift(b, w, w2):
    N, m = b.N, b.m
    for n in list(range(0, w + 3)) + [w2 + 40] if w <= 16 else [0, 1, 2, w - 1, w, w + 1, 70]:
        for fn, name in (('lshift', '__lshift__'), ('rshift', '__rshift__')):
            b.unit = 'bit string of %d bits %s %d' % (w, name, n)
            av = av_(b, w)
            want = N.mod2(N.shl(av, n), w) if fn == 'lshift' else N.shr(av, n)
            a, av = b.bs('a', w)
            b.op(['C21'], fn, name, a, n, w, want, [(a, w, av)], (a, w, av))
            a, av = b.bs('a', w)
            b.op(['C21'], 'i' + fn, '__i' + name[2:], a, n, w, want, [])
    # symbolic amount
    for fn, name in (('lshift', '__lshift__'), ('rshift', '__rshift__')):
        b.unit = 'bit string of %d bits %s any amount' % (w, name)
        n = b.sym('shift', 6)
        av = av_(b, w)
        want = 0
        for x, g in N.values(n, 1, 70):
            want = N.ite(g, N.mod2(N.shl(av, x), w) if fn == 'lshift' else N.shr(av, x), want)
        a, av = b.bs('a', w)
        b.op(['C21'], fn, name, a, n, w, want, [(a, w, av)])


def g_reflected(b, w, w2):
    N = b.N
    for fn, name, f in (('add', '__radd__', N.add), ('mul', '__rmul__', N.mul), ('and_', '__rand__', N.band),
                        ('or_', '__ror__', N.bor), ('xor', '__rxor__', N.bxor)):
        cases = [('int', 32), (1 << 40, 64), ('text', w2)]
        if fn == 'mul':
            cases = [(3, 32), (1 << 33, 64)] + ([('text', w2)] if w * w2 <= 144 else [])
        for kind, lw in cases:
            if kind == 'int':
                o = v = b.sym('n', 32)
            elif kind == 'text':
                v = b.sym('t', w2)
                o = b.bintext(v, w2)
            else:
                o = v = kind
            b.unit = '%s %s bit string of %d bits' % (kind, name, w)
            rw = max(lw, w) if fn in ('or_', 'xor') else lw
            a, av = b.bs('a', w)
            b.op(['C21'], fn, name, o, a, rw, N.mod2(f(v, av), rw), [(a, w, av)])


# ------------------------------------------------------------------ C22
def pick(b, v, w, idx):
    bits = b.bits(v, w)
    return b.N.from_bits([bits[i] for i in idx])


def g_index(b, w, w2):
    N, m = b.N, b.m
    for i in range(-w, w):
        b.unit = 'index %d of %d bits' % (i, w)
        a, av = b.bs('a', w)
        b.op(['C22', 'C26'] if i >= 0 else ['C22'], 'get', '__getitem__', a, i, 1, pick(b, av, w, [i % w]), [(a, w, av)])
        b.op(['C26'], 'get_bit', 'get_bit', a, i, 1, pick(b, av, w, [i % w]), [(a, w, av)])
        if i >= 0:
            b.loc = b.call_loc('get_bit_value')
            r, live, raised = b.run('get_bit_value', a, i)
            b.fine(['C26'], 'get_bit_value', raised)
            b.num(['C26'], 'get_bit_value', r, pick(b, av, w, [i]), live)
            b.same('get_bit_value', a, w, av)
        # assignment
        for what in ('int', 0, 1, 'bit'):
            a, av = b.bs('a', w)
            keep = []
            if what == 'int':
                x = v = b.sym('n', 8, signed=True)
            elif what == 'bit':
                x, v = b.bs('b', 1)
                keep = [(x, 1, v)]
            else:
                x = v = what
            bits = list(b.bits(av, w))
            bits[i % w] = b.bits(v, 1)[0]
            b.loc = b.call_loc('__setitem__')
            r, live, raised = b.run('setbit', a, i, x)
            b.fine(['C22'], 'bit assignment', raised)
            b.is_bs(['C22'], 'bit assignment', r, w, N.from_bits(bits), live)
            for o, ow, ov in keep:
                b.same('bit assignment', o, ow, ov)
    for i in (w, w + 1, w + 40, -w - 1, -w - 7):
        a, av = b.bs('a', w)
        b.unit = 'assignment at %d of %d bits' % (i, w)
        b.loc = b.call_loc('__setitem__')
        r, live, raised = b.run('setbit', a, i, 1)
        b.refused(['C22'], 'assignment outside', live, raised, ('Exception',), what='assignment to bit %d of %d' % (i, w))
        b.same('assignment outside', a, w, av)
    for k in (2, 3, 33):
        for i in sorted({0, w - 1, -1}):
            a, av = b.bs('a', w)
            x, v = b.bs('b', k)
            b.unit = 'assignment of %d bits to bit %d of %d bits' % (k, i, w)
            b.loc = b.call_loc('__setitem__')
            r, live, raised = b.run('setbit', a, i, x)
            b.refused(['C22'], 'a bit string of several bits for one bit', live, raised, ('Exception',), what=b.unit)
            b.same('a bit string of several bits for one bit', a, w, av)
            b.same('a bit string of several bits for one bit', x, k, v)


def g_slice(b, w, steps):
    N = b.N
    lim = list(range(-w - 2, w + 3)) if w <= 5 else [-w - 1, -w, -w + 1, -3, -1, 0, 1, 2, w // 2, w - 1, w, w + 1]
    for k in steps:
        for i in [None] + lim:
            for j in [None] + lim:
                b.unit = 'slices of %d bits with step %s' % (w, k)
                a, av = b.bs('a', w)
                idx = range(w)[slice(i, j, k)]
                b.loc = b.call_loc('__getitem__')
                r, live, raised = b.run('getslice', a, i, j, k)
                b.fine(['C22'], 'slice', raised)
                if live:
                    b.is_bs(['C22'], 'slice', r, len(idx), pick(b, av, w, idx),
                            live)
                b.same('slice', a, w, av)


def g_setslice(b, w, w2):
    N, m = b.N, b.m
    lim = list(range(-w - 1, w + 2)) if w <= 5 else [-w, -3, -1, 0, 1, 2, w // 2, w - 1, w, w + 1]
    for i in [None] + lim:
        for j in [None] + lim:
            idx = range(w)[slice(i, j)]
            for kind in ('bits', 'int', 'text'):
                b.unit = 'slice assignment of %d bits' % w
                a, av = b.bs('a', w)
                (kd, o, v, keep), = operands(b, w, w2, [kind])
                bits = list(b.bits(av, w))
                src = b.bits(v, max(len(idx), 1)) if type(v) is SI else [(v >> q) & 1 for q in range(len(idx) + 1)]
                for q, p in enumerate(idx):
                    bits[p] = src[q]
                b.loc = b.call_loc('__setitem__')
                r, live, raised = b.run('setslice', a, i, j, o)
                b.fine(['C22'], 'slice assignment', raised)
                if live:
                    b.is_bs(['C22'], 'slice assignment', r, w, N.from_bits(bits), live)
                for x, ow, ov in keep:
                    b.same('slice assignment', x, ow, ov)


def g_concat(b, w, w2):
    N, k = b.N, b.k
    for kind, o, v, keep in operands(b, w, w2, ['bits', 'text', 0, 1]):
        b.unit = 'bit string of %d bits %% %s' % (w, kind if kind != 'bits' else 'bit string of %d bits' % w2)
        n = w2 if kind in ('bits', 'text') else 1
        a, av = b.bs('a', w)
        want = N.from_bits(list(b.bits(v, n)) + list(b.bits(av, w)))
        b.op(['C22'], 'mod', '__mod__', a, o, w + n, want, [(a, w, av)] + keep, (a, w, av))
        a, av = b.bs('a', w)
        b.op(['C22'], 'imod', '__imod__', a, o, w + n, want, keep)
    # a sequence of bits, most significant first
    v = b.sym('q', w2)
    bits = b.bits(v, w2)
    items = PList([N.from_bits([x]) for x in reversed(bits)], 1)
    b.unit = 'bit string of %d bits %% list of %d bits' % (w, w2)
    a, av = b.bs('a', w)
    b.op(['C22'], 'mod', '__mod__', a, items, w + w2, N.from_bits(list(bits) + list(b.bits(av, w))), [(a, w, av)])
    e = b.value('empty')
    a, av = b.bs('a', w)
    b.op(['C22'], 'mod', '__mod__', e, a, w, av, [(a, w, av), (e, 0, 0)])
    b.op(['C22'], 'mod', '__mod__', a, b.value('empty'), w, av, [(a, w, av)])


def g_extend(b, w, w2):
    N = b.N
    for n in (w, w + 1, w + 7, w + 32, 64):
        if n < w:
            continue
        b.unit = 'extension of %d bits to %d' % (w, n)
        a, av = b.bs('a', w)
        b.op(['C22'], 'zero_extend', 'zero_extend', a, n, n, av, [(a, w, av)])
        bits = list(b.bits(av, w))
        b.op(['C22'], 'sign_extend', 'sign_extend', a, n, n, N.from_bits(bits + [bits[-1]] * (n - w)), [(a, w, av)])
    for n in sorted(set((0, 1, w - 1)) - {w}):
        if n >= w:
            continue
        for fn in ('zero_extend', 'sign_extend'):
            b.unit = '%s of %d bits to %d' % (fn, w, n)
            a, av = b.bs('a', w)
            b.loc = b.call_loc(fn)
            r, live, raised = b.run(fn, a, n)
            b.refused(['C22'], 'shrinking extension', live, raised, ('ValueError',), what='%s to a smaller width' % fn)
            b.same('shrinking extension', a, w, av)
    b.unit = 'reversal of %d bits' % w
    a, av = b.bs('a', w)
    want = N.from_bits(list(reversed(b.bits(av, w))))
    b.op(['C22'], 'reversed_', 'reversed', a, NOARG, w, want, [(a, w, av)], (a, w, av))
    b.op(['C22'], 'reverse', 'reverse', a, NOARG, w, want)
    a, av = b.bs('a', w)
    inv = N.sub((1 << w) - 1, av)
    b.op(['C21'], 'inverted', 'inverted', a, NOARG, w, inv, [(a, w, av)], (a, w, av))
    b.op(['C21'], 'invert', 'invert', a, NOARG, w, inv)
    a, av = b.bs('a', w)
    c, cv = b.bs('c', w2)
    b.op(['C20'], 'setto', 'set', a, c, w2, cv, [(c, w2, cv)])
    b.unit = 'iteration over %d bits' % w
    a, av = b.bs('a', w)
    b.loc = b.call_loc('__iter__')
    r, live, raised = b.run('bits', a)
    b.fine(['C22'], 'iteration', raised)
    if live:
        items = b.I.nat.iter_items(b.I, r)
        if type(items) is tuple:
            b.num(['C22'], 'iteration', len(items), w, live, 'the number of bits')
            for x, n in zip(items, b.bits(av, w)):
                b.num(['C22'], 'iteration', x, N.from_bits([n]), live, 'a bit')
        else:
            b.rep.undecided('C22', 'iteration', b.unit, 'length depends on the value')
    b.same('iteration', a, w, av)


# ------------------------------------------------------------------ C23
def g_compare(b, w, w2):
    N, m = b.N, b.m
    a, av = b.bs('a', w)
    o, ov = b.bs('b', w2)
    same = m.and_(1 if w == w2 else 0, N.eq(av, ov))
    less = m.ite(N.eq(av, ov), 1 if w < w2 else 0, N.lt(av, ov))
    rel = {'eq': same, 'ne': m.not_(same), 'lt': less, 'le': m.or_(less, same),
           'gt': m.not_(m.or_(less, same)), 'ge': m.not_(less)}
    b.unit = 'comparison of %d and %d bits' % (w, w2)
    # equality is given; the order must be total and consistent with it
    got = {}
    for fn in rel:
        b.loc = b.call_loc('__%s__' % fn)
        r, live, raised = b.run(fn, a, o)
        b.fine(['C23'], 'comparison', raised)
        got[fn] = r
        if fn in ('eq', 'ne'):
            b.boolean(['C23'], 'equality is width and value', r, rel[fn], live)
        elif w == w2:
            b.boolean(['C23'], 'order by value', r, rel[fn], live)
        b.same('comparison', a, w, av)
        b.same('comparison', o, w2, ov)
    if w != w2:
        T_ = lambda fn: b.I.truth(got[fn])
        try:
            lt, gt, le, ge, eq = T_('lt'), T_('gt'), T_('le'), T_('ge'), T_('eq')
        except Unsupported:
            lt = None
        if lt is not None:
            b.loc = b.call_loc('__lt__')
            r2, live, raised = b.run('lt', o, a)
            back = b.I.truth(r2)
            c = b.cmp
            c.never('C23', 'total order', m.not_(m.xor(m.xor(lt, gt), eq)), 1, b.loc, 'not exactly one of <, ==, > holds')
            c.never('C23', 'total order', m.and_(lt, gt), 1, b.loc, 'both < and > hold')
            c.never('C23', 'total order', m.xor(le, m.or_(lt, eq)), 1, b.call_loc('__le__'), '<= is not < or ==')
            c.never('C23', 'total order', m.xor(ge, m.or_(gt, eq)), 1, b.call_loc('__ge__'), '>= is not > or ==')
            c.never('C23', 'total order', m.xor(gt, back), 1, b.loc, 'a > b and b < a differ')
    # hashing
    b.loc = b.call_loc('__hash__')
    if w == w2:
        b.care = same
        r, live, raised = b.run('hashes', a, o)
        b.fine(['C23'], 'hash', raised)
        if live:
            b.boolean(['C23'], 'equal bit strings hash equally', r, 1, live)
        b.care = 1


def g_compare_int(b, w, w2):
    N, m = b.N, b.m
    a, av = b.bs('a', w)
    n = b.sym('n', 36, signed=True)
    neg = N.lt(n, 0)
    sv = N.signed_from_bits(b.bits(av, w)) if w > 1 else 0
    left = N.ite(neg, sv, av)
    rel = {'eq': N.eq(left, n), 'lt': N.lt(left, n)}
    rel['le'] = m.or_(rel['eq'], rel['lt'])
    rel['ne'], rel['gt'], rel['ge'] = m.not_(rel['eq']), m.not_(rel['le']), m.not_(rel['lt'])
    b.unit = 'comparison of %d bits with an integer' % w
    if w == 1:
        b.care = m.not_(neg)
    for fn in sorted(rel):
        b.loc = b.call_loc('__%s__' % fn)
        r, live, raised = b.run(fn, a, n)
        b.fine(['C23'], 'comparison with an integer', raised)
        b.boolean(['C23'], 'comparison with an integer', r, rel[fn], live)
        b.same('comparison', a, w, av, live)
    b.care = 1
    b.unit = 'comparison of %d bits with a text' % w
    t = b.sym('t', w2)
    x = b.bintext(t, w2)
    same = m.and_(1 if w == w2 else 0, N.eq(av, t))
    for fn, want in (('eq', same), ('ne', m.not_(same))):
        b.loc = b.call_loc('__%s__' % fn)
        r, live, raised = b.run(fn, a, x)
        b.fine(['C23'], 'comparison with a text', raised)
        b.boolean(['C23'], 'comparison with a text', r, want, live)
    if w == w2:
        lt = N.lt(av, t)
        for fn, want in (('lt', lt), ('le', m.or_(lt, same)), ('gt', m.not_(m.or_(lt, same))), ('ge', m.not_(lt))):
            b.loc = b.call_loc('__%s__' % fn)
            r, live, raised = b.run(fn, a, x)
            b.fine(['C23'], 'comparison with a text', raised)
            b.boolean(['C23'], 'comparison with a text', r, want, live)
    b.unit = 'truth of %d bits' % w
    b.loc = b.call_loc('__bool__')
    r, live, raised = b.run('truth', a)
    b.fine(['C23'], 'truth', raised)
    b.boolean(['C23'], 'truth', r, m.not_(N.eq(av, 0)), live)
    r, live, raised = b.run('branch', a)
    b.fine(['C23'], 'truth', raised)
    b.num(['C23'], 'truth', r, N.lin(0, [(m.not_(N.eq(av, 0)), 1)]), live)
    b.same('truth', a, w, av)


# ------------------------------------------------------------------ C24
def g_unsupported(b, w, w2):
    I = b.I
    bads = [('None', None), ('float', 1.5), ('zero float', 0.0), ('negative float', -1.5), ('whole float', 2.0), ('negative whole float', -3.0), ('dict', PDict(1)), ('list', PList((1, 0), 1)), ('tuple', (1, 0)),
            ('object', b.S.get('cmdis.bitstring', 'zeros'))]
    ops = ['add', 'sub', 'mul', 'floordiv', 'lshift', 'rshift', 'and_', 'or_', 'xor', 'mod']
    for kind, o in bads:
        for fn in ops + ['i' + x.rstrip('_') for x in ops]:
            base = fn[1:] if fn.startswith('i') else fn
            if base == 'mod' and kind in ('list', 'tuple'):
                continue
            b.unit = '%s with %s' % (fn, kind)
            a, av = b.bs('a', w)
            b.loc = b.call_loc('__%s__' % fn.rstrip('_'))
            r, live, raised = b.run(fn, a, o)
            b.refused(['C24'], 'operator with unsupported operand', live, raised, ('TypeError',), what='%s with %s' % (fn, kind))
            b.same('operator with unsupported operand', a, w, av)
        for fn in ops:
            if kind in ('list', 'tuple'):
                continue
            b.unit = '%s with %s on the left' % (fn, kind)
            a, av = b.bs('a', w)
            b.loc = b.call_loc('__r%s__' % fn.rstrip('_'))
            r, live, raised = b.run(fn, o, a)
            b.refused(['C24'], 'operator with unsupported operand', live, raised, ('TypeError',), what='%s %s bit string' % (kind, fn))
        for fn in ('lt', 'le', 'gt', 'ge'):
            b.unit = '%s with %s' % (fn, kind)
            a, av = b.bs('a', w)
            b.loc = b.call_loc('__%s__' % fn)
            r, live, raised = b.run(fn, a, o)
            b.refused(['C24'], 'order with unsupported operand', live, raised, ('TypeError',), what='%s with %s' % (fn, kind))
        for fn, want in (('eq', 0), ('ne', 1)):
            b.unit = '%s with %s' % (fn, kind)
            a, av = b.bs('a', w)
            b.loc = b.call_loc('__%s__' % fn)
            r, live, raised = b.run(fn, a, o)
            b.fine(['C24'], 'equality with unsupported operand', raised)
            b.boolean(['C24'], 'equality with unsupported operand', r, want, live)
    # shift amounts must be integers
    for fn in ('lshift', 'rshift', 'ilshift', 'irshift'):
        for kind in ('bits', 'text'):
            a, av = b.bs('a', w)
            o = b.bs('b', w2)[0] if kind == 'bits' else '101'
            b.unit = '%s by %s' % (fn, kind)
            b.loc = b.call_loc('__%s__' % fn)
            r, live, raised = b.run(fn, a, o)
            b.refused(['C24'], 'shift amount', live, raised, ('TypeError',), what='%s by %s' % (fn, kind))
            b.same('shift amount', a, w, av)


# ------------------------------------------------------------------ C25
def g_construct(b, w, w2):
    N, m = b.N, b.m
    b.loc = b.call_loc('__init__')
    # integers with the default width
    for name, lo, hi, ww in (('below 2^32', 0, 1 << 32, 32), ('from 2^32', 1 << 32, 1 << 64, 64), ('negative', -(1 << 31), 0, 32)):
        n = b.sym('n', 65, signed=True)
        b.care = m.and_(m.not_(N.lt(n, lo)), N.lt(n, hi))
        b.unit = 'bit string from an integer %s' % name
        r, live, raised = b.run('make1', n)
        b.fine(['C25'], 'from integer', raised)
        b.is_bs(['C25'], 'from integer', r, ww, N.mod2(n, ww), live)
        b.care = 1
    n = b.sym('n', 70, signed=True)
    b.unit = 'bit string of %d bits from an integer' % w
    r, live, raised = b.run('make', n, w)
    b.fine(['C25'], 'from integer', raised)
    b.is_bs(['C25'], 'from integer with width', r, w, N.mod2(n, w), live)
    # text
    t = b.sym('t', w)
    b.unit = 'bit string from a text of %d digits' % w
    x = b.bintext(t, w)
    r, live, raised = b.run('make1', x)
    b.fine(['C25'], 'from text', raised)
    b.is_bs(['C25'], 'from text', r, w, t, live)
    r, live, raised = b.run('make', x, w2)
    b.fine(['C25'], 'from text', raised)
    b.is_bs(['C25'], 'from text with width', r, w2, N.mod2(t, w2), live)
    # sequences
    b.unit = 'bit string from %d bits' % w
    items = [N.from_bits([q]) for q in reversed(b.bits(t, w))]
    for what, r3 in (('list', b.run('from_list', PList(items, 1))), ('tuple', b.run('from_tuple', *items))):
        r, live, raised = r3
        b.fine(['C25'], 'from %s' % what, raised)
        b.is_bs(['C25'], 'from %s' % what, r, w, t, live)
    # bytes
    for nb in (1, 2, 3, 4, 8):
        v = b.sym('y', 8 * nb)
        bs = [N.from_bits(b.bits(v, 8 * nb)[8 * i:8 * i + 8]) for i in range(nb)]
        b.unit = 'bit string from %d bytes' % nb
        r, live, raised = b.run('from_bytearray', PByteArray(bs, 1))
        b.fine(['C25'], 'from bytearray', raised)
        b.is_bs(['C25'], 'from bytearray', r, 8 * nb, v, live)
    # copies
    a, av = b.bs('a', w)
    b.unit = 'copy of %d bits' % w
    b.op(['C25'], 'make1', '__init__', a, NOARG, w, av, [(a, w, av)], (a, w, av))
    b.unit = 'copy of %d bits with width %d' % (w, w2)
    b.op(['C25'], 'make', '__init__', a, w2, w2, N.mod2(av, w2), [(a, w, av)])
    b.unit = 'empty bit strings'
    r, live, raised = b.run('empty')
    b.is_bs(['C25'], 'empty', r, 0, 0, live)
    r, live, raised = b.run('emptyw', w)
    b.is_bs(['C25'], 'zero', r, w, 0, live)
    for fn, v in (('zeros_', 0), ('ones_', (1 << w) - 1)):
        r, live, raised = b.run(fn, w)
        b.fine(['C25'], fn, raised)
        b.is_bs(['C25'], 'zeros and ones', r, w, v, live)
    r, live, raised = b.run('bitconst')
    for got, want in zip(r, (1, 0, 1, 1)) if type(r) is tuple else ():
        b.num(['C25'], 'bit0 and bit1', got, want)


def g_convert(b, w, w2):
    N, m = b.N, b.m
    a, av = b.bs('a', w)
    b.unit = 'conversion of %d bits' % w
    sv = N.signed_from_bits(b.bits(av, w))
    for fn, want in (('unsigned', av), ('value', av), ('as_int', av), ('width', w), ('as_len', w), ('mask', (1 << w) - 1),
                     ('signed', sv)):
        if fn == 'signed' and w < 2:
            continue
        b.loc = b.call_loc(fn.replace('as_int', '__int__').replace('as_len', '__len__'))
        r, live, raised = b.run(fn, a)
        b.fine(['C25'], fn, raised)
        b.num(['C25'], fn, r, want, live)
        b.same(fn, a, w, av)
    b.loc = b.call_loc('binary_string')
    r, live, raised = b.run('binary', a)
    b.fine(['C25'], 'binary_string', raised)
    b.text(['C25'], 'binary_string', r, b.bintext(av, w), live)
    b.same('binary_string', a, w, av)
    for fn in ('as_repr', 'as_str'):
        b.loc = b.call_loc('__repr__')
        r, live, raised = b.run(fn, a)
        b.fine(['C25'], 'repr', raised)
        b.text(['C25'], 'repr', r, T.concat(["%d'b" % w, b.bintext(av, w)]), live)
        b.same('repr', a, w, av)
    for n, spec, let in ((2, None, 'b'), (8, 'o', 'o'), (10, 'd', 'd'), (16, 'x', 'h'), (None, 'x', 'h')):
        b.loc = b.call_loc('base_string')
        r, live, raised = b.run('base', a, n) if n else b.run('base0', a)
        b.fine(['C25'], 'base_string', raised)
        body = b.bintext(av, w) if spec is None else T.from_int(b.I, av, spec)
        b.text(['C25'], 'base_string', r, T.concat(["%d'%s" % (w, let), body]), live)
        b.same('base_string', a, w, av)
    r, live, raised = b.run('base', a, 3)
    b.refused(['C25'], 'unknown base', live, raised, ('ValueError',), what='base 3')
    b.loc = b.call_loc('bytes')
    r, live, raised = b.run('as_bytes', a)
    b.fine(['C25'], 'bytes', raised)
    items = b.I.nat.iter_items(b.I, r)
    nb = (w + 7) // 8
    if type(items) is tuple:
        b.num(['C25'], 'bytes', len(items), nb, live, 'the number of bytes')
        for i, x in enumerate(items[:nb]):
            b.num(['C25'], 'bytes', x, N.from_bits(b.bits(av, w)[8 * i:8 * i + 8]), live, 'byte %d' % i)
    b.same('bytes', a, w, av)
    # assignments to the value and the width
    n = b.sym('n', 70, signed=True)
    b.unit = 'value assignment of %d bits' % w
    a, av = b.bs('a', w)
    b.loc = b.call_loc('value')
    r, live, raised = b.run('setvalue', a, n)
    b.fine(['C25', 'C19'], 'value assignment', raised)
    b.is_bs(['C25'], 'value assignment', r, w, N.mod2(n, w), live)
    for x in sorted(set((1, w2, w, w + 3))):
        a, av = b.bs('a', w)
        b.unit = 'width assignment of %d to %d bits' % (w, x)
        b.loc = b.call_loc('width')
        r, live, raised = b.run('setwidth', a, x)
        b.fine(['C25', 'C19'], 'width assignment', raised)
        b.is_bs(['C25'], 'width assignment', r, x, N.mod2(av, x), live)


# ------------------------------------------------------------------ C26
def g_query(b, w, w2):
    N, m = b.N, b.m
    a, av = b.bs('a', w)
    bits = b.bits(av, w)
    b.unit = 'queries of %d bits' % w
    z = N.eq(av, 0)
    ones = N.eq(av, (1 << w) - 1)
    low, high = w, -1
    for i in reversed(range(w)):
        low = N.ite(bits[i], i, low)
    for i in range(w):
        high = N.ite(bits[i], i, high)
    for fn, name, want in (('bit_count', 'bit_count', N.lin(0, [(x, 1) for x in bits])), ('lowest', 'lowest_set_bit', low),
                           ('highest', 'highest_set_bit', high)):
        b.loc = b.call_loc(name)
        r, live, raised = b.run(fn, a)
        b.fine(['C26'], name, raised)
        b.num(['C26'], name, r, want, live)
        b.same(name, a, w, av)
    for fn, want in (('is_zero', z), ('is_ones', ones)):
        b.loc = b.call_loc(fn)
        r, live, raised = b.run(fn, a)
        b.fine(['C26'], fn, raised)
        b.boolean(['C26'], fn, r, want, live)
        b.same(fn, a, w, av)
        b.op(['C26'], fn + '_bit', fn + '_bit', a, NOARG, 1, N.lin(0, [(want, 1)]), [(a, w, av)])


def flat(b, props, rule, got, want, live):
    """Two tuples of plain values are the same."""
    for g, t in b.I.alts(got):
        if type(t) is tuple and t is not got:
            g = b.m.and_(g, live)
            if g:
                flat(b, props, rule, t, want, g)
            got = None
    if got is None:
        return
    if type(want) is not tuple:
        for g, t in b.I.alts(want):
            g = b.m.and_(g, live)
            if g and type(t) is tuple:
                flat(b, props, rule, got, t, g)
        return
    for p in props:
        b.num([p], rule, len(got), len(want), live, 'the number of answers')
    for x, y in zip(got, want):
        if type(y) in (bool, SB):
            b.boolean(props, rule, x, b.I.truth(y), live)
        elif type(y) in (int, SI):
            b.num(props, rule, x, y, live)
        else:
            b.text(props, rule, x, y, live)


SURVEYS = (('C21', 'survey_C21'), ('C22', 'survey_C22'), ('C23', 'survey_C23'), ('C25', 'survey_C25'), ('C25', 'texts'), ('C26', 'survey_C26'))


def g_history(b, w, w2):
    """Answers depend on the present value alone: asked before and after every change, on an object that was asked
    before and on one that was not."""
    for prop, fn in SURVEYS:
        if not b.wants(prop):
            continue
        b.loc = 'cmdis/bitstring.py:bitstring'
        for how in HOW:
            b.unit = 'the answers of %d bits after %s (%s)' % (w, how, fn)
            n, t, (o, ov) = b.sym('n', 3), b.bintext(b.sym('t', 2), 2), b.bs('o', w2)
            twin, v = b.bs('a', w)
            o2 = b.value('make', ov, w2)
            a = b.value('make', v, w)
            r, live, raised = b.run(fn, a)
            b.fine([prop], 'history', raised)
            x, live, raised = b.run('mutate', a, how, n, t, o)
            b.fine([prop], 'history', raised)
            y, live, raised = b.run('mutate', twin, how, n, t, o2)
            b.fine([prop], 'history', raised)
            got, live, raised = b.run(fn, x)
            b.fine([prop], 'history', raised)
            want, live, raised = b.run(fn, y)
            b.fine([prop], 'history', raised)
            if live:
                flat(b, [prop], 'history', got, want, live)


def g_independent(b, w, w2):
    """Results are objects of their own: changing one changes no operand, no constant and no later result."""
    for prop, fn in SURVEYS:
        if prop == 'C23' or fn == 'texts':
            continue
        b.loc = 'cmdis/bitstring.py:bitstring'
        b.unit = 'results of %d bits are independent (%s)' % (w, fn)
        a, v = b.bs('a', w)
        before, live, raised = b.run(fn, a)
        k, live, raised = b.run('consts')
        x, live, raised = b.run('poke_' + prop, a)
        b.fine(['C20'], 'independent results', raised)
        b.same('independent results', a, w, v)
        after, live, raised = b.run(fn, a)
        b.fine(['C20'], 'independent results', raised)
        flat(b, ['C20'], 'independent results', after, before, live)
        after, live, raised = b.run(fn, b.value('make', v, w))
        flat(b, ['C20'], 'independent results', after, before, live)
        k2, live, raised = b.run('consts')
        b.fine(['C20'], 'independent results', raised)
        flat(b, ['C20'], 'independent results', k2, k, live)


def g_chain(b, w, w2):
    """What a bit string does next depends on its width and value, not on how it came to have them: after every way of making
    or changing one, every change gives what it gives for a fresh string of that width and value."""
    b.loc = 'cmdis/bitstring.py:bitstring'
    for how in MADE + HOW:
        for then in THEN:
            prop = 'C21' if then in ('+=', '-=', '*=', '//=', '&=', '|= bits', '^=', '<<=', '>>=', 'invert') else 'C22'
            if not b.wants('C19') and not b.wants(prop):
                continue
            b.unit = '%s of %d bits, then %s' % (how, w, then)
            n, t, (o, ov) = b.sym('n', 3), b.bintext(b.sym('t', 2), 2), b.bs('o', w2)
            a, v = b.bs('a', w)
            x, live, raised = b.run('producer', a, how, n, t, o)
            b.fine(['C19', prop], 'next change', raised)
            at = b.view(x, live)
            if not live or len(at) != 1 or type(at[0][1]) is not int or at[0][1] < 2 and then != '+=':
                continue
            twin = b.value('make', at[0][2], at[0][1])
            x, live, raised = b.run('mutate', x, then, n, t, b.value('make', ov, w2))
            b.fine(['C19', prop], 'next change', raised)
            y, live2, raised = b.run('mutate', twin, then, n, t, b.value('make', ov, w2))
            b.fine(['C19', prop], 'next change', raised)
            live = b.m.and_(live, live2)
            if not live:
                continue
            if b.wants('C19'):
                for g, w1, v1 in b.view(x, live):
                    for h, k in b.I.alts(w1):
                        if type(k) is int:
                            b.in_range('next change', v1, k, b.m.and_(g, h))
            if b.wants(prop):
                got, live, raised = b.run('obs', x)
                want, live, raised = b.run('obs', y)
                flat(b, [prop], 'next change', got, want, live)


GRID = (0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001,
        0x123456789abcdef, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff)


def g_grid(b, w, w2):
    """Products and quotients of particular numbers, where the operands in general are too wide to be compared exactly."""
    for x in GRID:
        if x >> w:
            continue
        for y in GRID:
            if y >> w2:
                continue
            for fn, name, want in (('mul', '__mul__', x * y), ('floordiv', '__floordiv__', x // y if y else None)):
                if want is None:
                    continue
                b.unit = '%d bits %s %d bits of particular values' % (w, name, w2)
                for o in (y, b.value('make', y, w2)):
                    a = b.value('make', x, w)
                    b.op(['C21'], fn, name, a, o, w, want % (1 << w))
                    b.op(['C21'], 'i' + fn, '__i' + name[2:], a, o, w, want % (1 << w))


GROUPS = {
    'history': (g_history, ('C21', 'C22', 'C23', 'C25', 'C26')),
    'independent': (g_independent, ('C20',)),
    'chain': (g_chain, ('C19', 'C21', 'C22')),
    'grid': (g_grid, ('C21',)),
    'arith': (g_arith, ('C19', 'C20', 'C21')),
    'bitwise': (g_bitwise, ('C19', 'C20', 'C21')),
    'shift': (g_shift, ('C19', 'C20', 'C21')),
    'reflected': (g_reflected, ('C19', 'C20', 'C21')),
    'index': (g_index, ('C19', 'C20', 'C22', 'C26')),
    'setslice': (g_setslice, ('C19', 'C20', 'C22')),
    'concat': (g_concat, ('C19', 'C20', 'C22')),
    'extend': (g_extend, ('C19', 'C20', 'C21', 'C22')),
    'compare': (g_compare, ('C20', 'C23')),
    'compare_int': (g_compare_int, ('C20', 'C23')),
    'unsupported': (g_unsupported, ('C20', 'C24')),
    'construct': (g_construct, ('C19', 'C20', 'C25')),
    'convert': (g_convert, ('C19', 'C20', 'C25')),
    'query': (g_query, ('C20', 'C26')),
}
QUICK = [(1, 1), (1, 8), (2, 3), (3, 2), (5, 5), (8, 4), (8, 8), (12, 12), (16, 32), (31, 8), (32, 32), (33, 16), (64, 32)]
THOROUGH = QUICK + [(4, 4), (6, 9), (7, 7), (9, 9), (10, 3), (17, 17), (24, 24), (32, 5), (40, 40), (48, 64), (63, 64), (64, 64), (65, 33),
                    (100, 20), (128, 128)]


def pairs(group, tier):
    ps = QUICK if tier == 'quick' else THOROUGH
    if group == 'history':
        ps = [(5, 3), (8, 8), (12, 9)] + ([(33, 16), (48, 24)] if tier == 'thorough' else [])
    if group == 'chain':
        ps = [(4, 4), (7, 3)] + ([(8, 8), (12, 12), (32, 32)] if tier == 'thorough' else [])
    if group == 'compare':
        ps = ps + ([(72, 72), (65, 70)] if tier == 'quick' else [(65, 70), (72, 72), (80, 80), (130, 130)])
    if group == 'independent':
        ps = [p for p in ps if p[0] > 1 and p[0] <= 33]
    if group == 'grid':
        ps = [(8, 8), (12, 32), (31, 64), (32, 32), (33, 33), (40, 40), (48, 48), (63, 64), (64, 32), (64, 64)]
    if group == 'setslice':
        ps = [p for p in ps if p[0] <= 12 or p in ((32, 32), (64, 32), (40, 40), (128, 128))]
    if group == 'unsupported':
        ps = ps[4:6]
    if group == 'index':
        ps = [p for p in ps if p[0] <= 33]
    return ps


def tasks(prop, tier):
    out = []
    for g, (fn, props) in sorted(GROUPS.items()):
        if prop in props:
            out += [(MODULES, 'bits', (g, w, w2)) for w, w2 in pairs(g, tier)]
    if prop in ('C19', 'C20', 'C22'):
        for w in (1, 2, 3, 5, 8) + ((4, 6, 7, 12) if tier == 'thorough' else ()):
            for steps in ((None, 1), (2, 3), (-1, -2)):
                out.append((MODULES, 'slice', (w, steps)))
    out.sort(key=lambda t: -(t[2][1] if t[1] == 'bits' else 1000))
    return out


def run(S, args, props):
    rep = Report()
    g, w, w2 = args
    b = Bits(S, rep, '%s of %d and %d bits' % args, props)
    attempt(b, g, GROUPS[g][0], w, w2)
    rep.touch(S.I)
    return rep


def attempt(b, g, fn, *args):
    """For all operands at once; what stays undecided, for particular operands (which can only find violations)."""
    rep = b.rep
    try:
        fn(b, *args)
    except Unsupported as e:
        rep.undecided(None, g, b.unit, 'not representable: %s' % e)
    except Exception as e:
        rep.undecided(None, g, b.unit, 'analysis failed: %s: %s' % (type(e).__name__, e))
    if rep.open and not rep.bad:
        left = list(rep.open)
        for b.fix in range(len(PATTERNS)):
            b.care = 1
            try:
                fn(b, *args)
            except Exception:
                pass
        b.fix = None
        rep.open = left


def run_slice(S, args, props):
    rep = Report()
    w, steps = args
    b = Bits(S, rep, 'slices of %d bits' % w, props)
    attempt(b, 'slice', g_slice, w, steps)
    rep.touch(S.I)
    return rep
