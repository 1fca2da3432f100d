"""Byte and bit-field utilities: C38.  Encoding patterns: C39."""
import itertools
import string
from absint.num import SI, SB, Unsupported
from absint.values import *
from absint import text as T
from .report import Report
from .bits import Bits

MODULES = ('cmdis', 'cmdis.bitstring', 'cmdis.utilities', 'cmdis.decoder')
UDRV = 'driver_utils'
USRC = '''
from cmdis import utilities as U
from cmdis.decoder import Decoder, parse_spec
def hamming(v): return U.hamming_weight(v)
def le16(d): return U.bytes_to_le16(d)
def le16o(d, o): return U.bytes_to_le16(d, o)
def le16k(d, o): return U.bytes_to_le16(d, offset=o)
def le32(d): return U.bytes_to_le32(d)
def le32o(d, o): return U.bytes_to_le32(d, o)
def to16(v): return list(U.le16_to_bytes(v))
def to32(v): return list(U.le32_to_bytes(v))
def b2w(d): return U.byteListToU32leList(d)
def w2b(d): return U.u32leListToByteList(d)
def h2b(d): return U.u16leListToByteList(d)
def b2h(d): return U.byteListToU16leList(d)
def wmask(n): return U.wmask(n)
def bitmask(*a): return U.bitmask(*a)
def inv(v): return U.invert32(v)
def bfx(v, m, l): return U.bfx(v, m, l)
def bfx1(v, m): return U.bfx(v, m)
def bfi(v, f, m, l): return U.bfi(v, f, m, l)
def bfi1(v, f, m): return U.bfi(v, f, m)
class Rec(object):
    def __init__(self, mnemonic, word, is32bit):
        self.mnemonic = mnemonic
        self.word = word
        self.is32bit = is32bit
        self.address = None
        self.got = None
def handler(_ins, **kw):
    _ins.got = kw
def build(spec, spec2):
    return Decoder(handler, 'x', Rec, spec, spec2)
def build1(spec):
    return Decoder(handler, 'x', Rec, spec)
def is32(d): return d.is32bit
def check(d, w): return d.check(w)
def decode(d, w, a):
    i = d.decode(w, a)
    return (i.word, i.is32bit, i.address, [(k, i.got[k]) for k in sorted(i.got)])
def width(x): return x.width
def value(x): return x.unsigned
def parse(s): return parse_spec(s)
'''


class Utils(Bits):
    def __init__(self, S, rep, unit, only):
        S.driver(UDRV, USRC)
        Bits.__init__(self, S, rep, unit, only)

    def h(self, fn, *args):
        saved, self.drv = self.drv, UDRV
        try:
            return self.run(fn, *args)
        finally:
            self.drv = saved

    def at(self, name):
        self.loc = 'cmdis/utilities.py:%s' % name

    def items(self, props, rule, r, live, want):
        its = self.I.nat.iter_items(self.I, r) if type(r) is not Choice and r is not None else None
        if type(its) is not tuple:
            self.rep.undecided(props[0], rule, self.unit, 'the length depends on the values')
            return
        self.num(props, rule, len(its), len(want), live, 'the number of items')
        for i, (x, w) in enumerate(zip(its, want)):
            self.num(props, rule, x, w, live, 'item %d' % i)


P38, P39 = ['C38'], ['C39']


def byte_list(b, name, n):
    v = b.sym(name, 8 * n) if n else 0
    bits = b.bits(v, 8 * n)
    return v, [b.N.from_bits(bits[8 * i:8 * i + 8]) for i in range(n)]


def kinds(b, items):
    yield 'list', PList(items, 1)
    yield 'bytearray', PByteArray(items, 1)
    yield 'tuple', tuple(items)
    yield 'bytes', PBytes(items)


def t_bytes(b, _):
    N = b.N
    for n in range(2, 9):
        v, items = byte_list(b, 'y', n)
        bits = b.bits(v, 8 * n)
        for what, seq in kinds(b, items):
            b.unit = 'conversion from %d bytes in a %s' % (n, what)
            for off in range(0, n - 1):
                b.at('bytes_to_le16')
                for fn in ('le16o', 'le16k'):
                    r, live, raised = b.h(fn, seq, off)
                    b.fine(P38, 'bytes_to_le16', raised)
                    b.num(P38, 'bytes_to_le16', r, N.from_bits(bits[8 * off:8 * off + 16]), live)
                if off + 4 <= n:
                    b.at('bytes_to_le32')
                    r, live, raised = b.h('le32o', seq, off)
                    b.fine(P38, 'bytes_to_le32', raised)
                    b.num(P38, 'bytes_to_le32', r, N.from_bits(bits[8 * off:8 * off + 32]), live)
            b.at('bytes_to_le16')
            r, live, raised = b.h('le16', seq)
            b.fine(P38, 'bytes_to_le16', raised)
            b.num(P38, 'bytes_to_le16', r, N.from_bits(bits[:16]), live)
            if n >= 4:
                b.at('bytes_to_le32')
                r, live, raised = b.h('le32', seq)
                b.fine(P38, 'bytes_to_le32', raised)
                b.num(P38, 'bytes_to_le32', r, N.from_bits(bits[:32]), live)
    v = b.sym('v', 33, signed=True)
    for fn, name, n in (('to16', 'le16_to_bytes', 2), ('to32', 'le32_to_bytes', 4)):
        b.unit = name
        b.at(name)
        r, live, raised = b.h(fn, v)
        b.fine(P38, name, raised)
        b.items(P38, name, r, live, [N.from_bits(b.bits(v, 33)[8 * i:8 * i + 8]) for i in range(n)])


def t_lists(b, _):
    N = b.N
    for n in range(0, 6):
        words = [b.sym('w%d' % i, 32) for i in range(n)]
        b.unit = 'lists of %d words' % n
        flat = [N.from_bits(b.bits(w, 32)[8 * i:8 * i + 8]) for w in words for i in range(4)]
        b.at('u32leListToByteList')
        r, live, raised = b.h('w2b', PList(words, 1))
        b.fine(P38, 'u32leListToByteList', raised)
        b.items(P38, 'u32leListToByteList', r, live, flat)
        b.at('byteListToU32leList')
        r, live, raised = b.h('b2w', PList(flat, 1))
        b.fine(P38, 'byteListToU32leList', raised)
        b.items(P38, 'byteListToU32leList', r, live, words)
        halfs = [b.sym('h%d' % i, 16) for i in range(n)]
        flat = [N.from_bits(b.bits(w, 16)[8 * i:8 * i + 8]) for w in halfs for i in range(2)]
        b.at('u16leListToByteList')
        r, live, raised = b.h('h2b', PList(halfs, 1))
        b.fine(P38, 'u16leListToByteList', raised)
        b.items(P38, 'u16leListToByteList', r, live, flat)
        b.at('byteListToU16leList')
        r, live, raised = b.h('b2h', PList(flat, 1))
        b.fine(P38, 'byteListToU16leList', raised)
        b.items(P38, 'byteListToU16leList', r, live, halfs)
        # bytes given as a bytearray
        r, live, raised = b.h('b2w', PByteArray([x for w in words for x in
                                                 [N.from_bits(b.bits(w, 32)[8 * i:8 * i + 8]) for i in range(4)]], 1))
        b.at('byteListToU32leList')
        b.fine(P38, 'byteListToU32leList', raised)
        b.items(P38, 'byteListToU32leList', r, live, words)


def t_fields(b, w):
    N = b.N
    v = b.sym('v', w)
    f = b.sym('f', w)
    bits, fb = b.bits(v, w), b.bits(f, w)
    for msb in range(w):
        for lsb in range(msb + 1):
            if w > 9 and msb not in (0, 1, 7, 15, 16, 31) and lsb not in (0, 1, 8, 30):
                continue
            b.unit = 'bits %d..%d of %d' % (msb, lsb, w)
            n = msb - lsb + 1
            b.at('bfx')
            r, live, raised = b.h('bfx', v, msb, lsb)
            b.fine(P38, 'bfx', raised)
            b.num(P38, 'bfx', r, N.from_bits(bits[lsb:msb + 1]), live, 'the field %d..%d' % (msb, lsb))
            b.at('bfi')
            want = N.from_bits(bits[:lsb] + fb[:n] + bits[msb + 1:])
            r, live, raised = b.h('bfi', v, f, msb, lsb)
            b.fine(P38, 'bfi', raised)
            b.num(P38, 'bfi', r, want, live, 'the value with field %d..%d replaced' % (msb, lsb))
            b.at('bitmask')
            r, live, raised = b.h('bitmask', (msb, lsb))
            b.num(P38, 'bitmask of a range', r, ((1 << n) - 1) << lsb, live)
    for k in range(w):
        b.unit = 'bit %d of %d' % (k, w)
        b.at('bfx')
        r, live, raised = b.h('bfx1', v, k)
        b.fine(P38, 'bfx of one bit', raised)
        b.num(P38, 'bfx of one bit', r, N.from_bits([bits[k]]), live, 'bit %d' % k)
        b.at('bfi')
        r, live, raised = b.h('bfi1', v, f, k)
        b.fine(P38, 'bfi of one bit', raised)
        b.num(P38, 'bfi of one bit', r, N.from_bits(bits[:k] + fb[:1] + bits[k + 1:]), live, 'the value with bit %d replaced' % k)


def t_masks(b, _):
    N = b.N
    b.unit = 'masks'
    b.at('wmask')
    for n in range(0, 70):
        r, live, raised = b.h('wmask', n)
        b.fine(P38, 'wmask', raised)
        b.num(P38, 'wmask', r, (1 << n) - 1, live)
    b.at('bitmask')
    cases = [(), (0,), (5,), (31,), (3, 3), (0, 31, 7), ((31, 24),), ((7, 0),), ((0, 0),), ((4, 4), 9), (PList([4, 0, 2], 1), (31, 24)),
             (PList([], 1),), (PList([9], 1), 1), ((23, 17), 1), ((3, 1), (2, 0)), (40,), ((63, 60),)]
    for args in cases:
        want = 0
        for a in args:
            if type(a) is tuple:
                for q in range(a[1], a[0] + 1):
                    want |= 1 << q
            elif type(a) is PList:
                for q in b.I.nat.iter_items(b.I, a):
                    want |= 1 << q
            else:
                want |= 1 << a
        r, live, raised = b.h('bitmask', *args)
        b.fine(P38, 'bitmask', raised)
        b.num(P38, 'bitmask', r, want, live)
    k = b.sym('k', 5)
    r, live, raised = b.h('bitmask', k)
    b.fine(P38, 'bitmask of any bit', raised)
    want = 0
    for x, g in N.values(k, 1, 40):
        want = N.ite(g, 1 << x, want)
    if type(r) is SI:
        b.num(P38, 'bitmask of any bit', r, want, live)
    b.at('invert32')
    v = b.sym('v', 32)
    r, live, raised = b.h('inv', v)
    b.fine(P38, 'invert32', raised)
    b.num(P38, 'invert32', r, N.sub(0xffffffff, v), live)
    b.at('hamming_weight')
    r, live, raised = b.h('hamming', v)
    b.fine(P38, 'hamming_weight', raised)
    b.num(P38, 'hamming_weight', r, N.lin(0, [(x, 1) for x in b.bits(v, 32)]), live)


# ------------------------------------------------------------------ C39
GOOD = [
    '0000000000000000', '1111111111111111', '1010 0101 1100 0011', 'x(16)', 'a b c d e f g h i j k l m n o p', 'a(8) b(8)',
    'ab(3) 0 cd(4) 1111 e f g 1', '00 x(5) 1 y(3) z(4) w', 'Rd(4) Rn(4) imm8(8)', 'a=0000 b(4) c=11 d(6)', 'S=1 x(15)', 'x(15) S=1',
    '0 a=101 1 b=0 c(4) 11 d(3) e', '01000 i imm3(3) 0 imm2(2) t=0011', 'r1(3) r2(3) r3(3) 1111111', 'a(1) b(2) c(3) d(4) e(5) f',
    'q 000 q2(3) 1 q3(8)', '  0000   x( 4 )  1111 y (4)', 'n(10) m(6)', '1x(3)0y(3)1z(3)0w(3)', 'x\t(4) 0000 0000 0000', 'aB9(16)',
    'd=1111111111111111', 'd=0000000000000000', 'x y 00000000000000', '0000000 x 0000000 y', 'cond=1110 imm8(8) 0101',
]
BAD = [
    '', '0', '000000000000000', '00000000000000000', 'x(15)', 'x(17)', 'a(8) b(9)', '0000 0000 0000 000x 1', 'x(16) 0',
    '0000-0000 0000 0000', '0000 0000 0000 000?', '2000000000000000', 'x(4 b(12)', 'x(4] 000000000000', 'x(a) 000000000000000', '*' * 16,
    'x=0 0', '0000 0000 0000 00', '=000 0000 0000 0000', '(4) 000000000000', 'x(4) (4) 00000000', '_ 000000000000000', 'x(16);', 'x(16))',
]


def ref_parse(spec):
    """Our own reading of a pattern: [('bit', v) | (name, width, fixed or None)], or None if it is malformed."""
    out = []
    i, n = 0, len(spec)
    ws = ' \t\n\r\x0b\x0c'
    while i < n:
        c = spec[i]
        if c in ws:
            i += 1
        elif c in '01':
            out.append(('bit', int(c)))
            i += 1
        elif c.isalpha() and c.isascii():
            j = i
            while j < n and spec[j].isalnum() and spec[j].isascii():
                j += 1
            name = spec[i:j]
            i = j
            if i < n and spec[i] == '=':
                j = i + 1
                while j < n and spec[j] in '01':
                    j += 1
                if j == i + 1:
                    return None
                out.append((name, j - i - 1, spec[i + 1:j]))
                i = j
                continue
            j = i
            while j < n and spec[j] in ws:
                j += 1
            if j < n and spec[j] == '(':
                e = spec.find(')', j)
                if e < 0 or not spec[j + 1:e].strip().isdigit():
                    return None
                out.append((name, int(spec[j + 1:e].strip()), None))
                i = e + 1
            else:
                out.append((name, 1, None))
        else:
            return None
    return out


def layout(items):
    """(fixed {bit: value}, fields {name: (lo, width)}) or None when not exactly 16 bits."""
    if items is None:
        return None
    if sum(1 if x[0] == 'bit' else x[1] for x in items) != 16:
        return None
    pos = 16
    fixed, fields = {}, {}
    for x in items:
        if x[0] == 'bit':
            pos -= 1
            fixed[pos] = x[1]
        else:
            pos -= x[1]
            fields[x[0]] = (pos, x[1])
            if x[2] is not None:
                for i, c in enumerate(reversed(x[2])):
                    fixed[pos + i] = int(c)
    return fixed, fields


def t_pattern(b, specs):
    N, m = b.N, b.m
    lay = [layout(ref_parse(s)) for s in specs]
    b.unit = 'pattern %s' % ' | '.join(specs)
    b.loc = 'cmdis/decoder.py:Decoder'
    d, live, raised = b.h('build', *specs) if len(specs) == 2 else b.h('build1', *specs)
    if any(x is None for x in lay):
        b.refused(P39, 'a malformed pattern is rejected', live, raised, ('Exception',), what='the malformed pattern')
        return
    b.fine(P39, 'a well-formed pattern is accepted', raised)
    if live != 1:
        return
    w = 16 * len(specs)
    word = b.sym('word', w)
    bits = b.bits(word, w)
    r, live, raised = b.h('is32', d)
    b.boolean(P39, 'size of the encoding', r, 1 if w == 32 else 0, live)
    fixed, fields = {}, {}
    for h, (fx, fl) in enumerate(lay):
        fixed.update((16 * h + p, v) for p, v in fx.items())
        fields.update((n, (16 * h + lo, k)) for n, (lo, k) in fl.items())
    match = m.all_([bits[p] if v else m.not_(bits[p]) for p, v in sorted(fixed.items())])
    b.loc = 'cmdis/decoder.py:Decoder.check'
    r, live, raised = b.h('check', d, word)
    b.fine(P39, 'matching', raised)
    b.boolean(P39, 'a word matches exactly when the fixed bits agree', r, match, live)
    b.loc = 'cmdis/decoder.py:Decoder.decode'
    addr = b.sym('addr', 32)
    b.care = match
    r, live, raised = b.h('decode', d, word, addr)
    b.fine(P39, 'field extraction', raised)
    for g, t in b.I.alts(r):
        g = m.and_(g, live)
        if g == 0:
            continue
        b.num(P39, 'word and address', t[0], word, g, 'the word')
        b.num(P39, 'word and address', t[2], addr, g, 'the address')
        got = b.I.nat.iter_items(b.I, t[3])
        if type(got) is not tuple:
            raise Unsupported('fields depend on the word')
        names = dict((x[0], x[1]) for x in got)
        if sorted(names) != sorted(fields):
            b.cmp.never('C39', 'fields', g, g, b.loc, 'the fields are %s, expected %s' % (', '.join(sorted(map(str, names))), ', '.join(sorted(fields))))
            continue
        for n, (lo, k) in sorted(fields.items()):
            b.is_bs(P39, 'a field holds exactly its bits', names[n], k, N.from_bits(bits[lo:lo + k]), g)
    b.care = 1


def generated(tier):
    """Patterns generated from the grammar."""
    import random
    rnd = random.Random(7)
    out = []
    for n in range(60 if tier == 'quick' else 600):
        left = 16
        toks = []
        while left:
            k = min(left, rnd.choice((1, 1, 1, 2, 3, 4, 5, 8)))
            name = 'abcdefgxyzRSTUV'[len(toks) % 15] + rnd.choice(('', '1', 'mm', 'x9'))
            f = rnd.randrange(5)
            if f == 0:
                toks.append(name if False else name + '(%d)' % k)
            elif f == 1:
                toks.append(''.join(rnd.choice('01') for _ in range(k)))
            elif f == 2:
                toks.append(name + '=' + ''.join(rnd.choice('01') for _ in range(k)))
            elif f == 3:
                k = 1
                toks.append(name)
            else:
                toks.append('%s (%d)' % (name, k))
            left -= k
        out.append((' '.join(toks),))
    pairs = [(a[0], b[0]) for a, b in zip(out[::2], out[1::2]) if not set(names_of(a[0])) & set(names_of(b[0]))]
    return out + pairs


def stray(tier):
    """Well-formed patterns with one stray character put in at every position."""
    out = []
    base = ['S x(15)', 'a=0000 b(4) c=11 d(6)', '01 x y(4) 101 z=11 w(4)', 'x (8) y(8)']
    for k, s in enumerate(base if tier == 'quick' else GOOD):
        for i in range(len(s) + 1):
            for c in (',;-._*/:' if tier != 'quick' else ',;-._*/:'[(i + k) % 8] + ','):
                bad = s[:i] + c + s[i:]
                if layout(ref_parse(bad)) is None:
                    out.append((bad,))
    return sorted(set(out))


def names_of(s):
    return [x[0] for x in ref_parse(s) or () if x[0] != 'bit']


def tasks(prop, tier):
    if prop == 'C38':
        out = [(MODULES, 'utils', ('bytes', 0)), (MODULES, 'utils', ('lists', 0)), (MODULES, 'utils', ('masks', 0))]
        out += [(MODULES, 'utils', ('fields', w)) for w in (32, 8, 5, 16) + ((64, 12, 9) if tier == 'thorough' else ())]
        return out
    specs = [(s,) for s in GOOD + BAD] + stray(tier) + generated(tier)
    specs += [('%s1 %s0(3) %sq=01 y%s2z(2) 0x(7)' % (c, c, c, c),) for c in string.ascii_letters]
    specs += [(GOOD[i], GOOD[j]) for i, j in ((0, 3), (5, 8), (2, 5), (3, 0), (9, 8), (12, 16), (16, 9), (8, 24))
              if not set(names_of(GOOD[i])) & set(names_of(GOOD[j]))]
    specs += [(GOOD[5], BAD[2]), (GOOD[0], BAD[5]), (BAD[1], GOOD[8]), (GOOD[3], BAD[9])]
    return [(MODULES, 'utils', ('pattern', tuple(specs[i:i + 8]))) for i in range(0, len(specs), 8)]


def run(S, args, props):
    rep = Report()
    g, x = args
    todo = x if g == 'pattern' else (x,)
    fn = {'bytes': t_bytes, 'lists': t_lists, 'fields': t_fields, 'masks': t_masks, 'pattern': t_pattern}[g]
    for y in todo:
        b = Utils(S, rep, g, props)
        try:
            fn(b, y)
        except Unsupported as e:
            rep.undecided(None, g, b.unit, 'not representable: %s' % e)
    rep.touch(S.I)
    return rep
