"""Architecture helper functions: C27."""
from absint.num import SI, SB, Unsupported
from absint.values import *
from .report import Report
from .bits import Bits, MODULES as BMODS
from .bench import Bench

MODULES = ('cmdis', 'cmdis.bitstring', 'cmdis.helpers')
HDRV = 'driver_helpers'
HSRC = '''
from cmdis import helpers as H
from cmdis.helpers import SRType
from cmdis.bitstring import bitstring
def align(v, n): return H.Align(v, n)
def awc(x, y, c): return H.AddWithCarry(x, y, c)
def LSL_C(x, n): return H.LSL_C(x, n)
def LSR_C(x, n): return H.LSR_C(x, n)
def ASR_C(x, n): return H.ASR_C(x, n)
def ROR_C(x, n): return H.ROR_C(x, n)
def RRX_C(x, c): return H.RRX_C(x, c)
def LSL(x, n): return H.LSL(x, n)
def LSR(x, n): return H.LSR(x, n)
def ASR(x, n): return H.ASR(x, n)
def ROR(x, n): return H.ROR(x, n)
def RRX(x, c): return H.RRX(x, c)
def kind(name):
    return getattr(SRType, 'SRType_' + name)
def Shift_C(x, name, n, c): return H.Shift_C(x, kind(name), n, c)
def Shift(x, name, n, c): return H.Shift(x, kind(name), n, c)
def decode(t, n):
    a, b = H.DecodeImmShift(t, n)
    return (a is SRType.SRType_LSL, a is SRType.SRType_LSR, a is SRType.SRType_ASR, a is SRType.SRType_ROR, a is SRType.SRType_RRX, b)
def expand_c(i, c): return H.ThumbExpandImm_C(i, c)
def expand(i): return H.ThumbExpandImm(i)
'''
P = ['C27']


class Arch(Bits):
    def __init__(self, S, rep, unit, only):
        S.driver(HDRV, HSRC)
        Bits.__init__(self, S, rep, unit, only)

    def h(self, fn, *args):
        saved, self.drv = self.drv, HDRV
        try:
            return self.run(fn, *args)
        finally:
            self.drv = saved

    def loc_of(self, name):
        self.loc = 'cmdis/helpers.py:%s' % name

    def results(self, rule, got, live, wants):
        """got is a tuple of bit strings with the wanted (width, value) each."""
        I, m = self.I, self.m
        for g, t in I.alts(got):
            g = m.and_(g, live)
            if g == 0:
                continue
            if type(t) is not tuple or len(t) != len(wants):
                self.cmp.never('C27', rule, g, live, self.loc, 'the result is not a tuple of %d' % len(wants))
                continue
            for x, (what, w, v) in zip(t, wants):
                self.is_bs(P, '%s: %s' % (rule, what), x, w, v, g)


def shifted(b, v, w, kind, n, cin):
    """(value, carry node) of the reference shift on w bits by a constant."""
    m = b.m
    x = list(b.bits(v, w))
    if n == 0 and kind != 'RRX':
        return v, cin
    if kind == 'LSL':
        e = [0] * n + x
        return b.N.from_bits(e[:w]), e[w] if n <= w else 0
    if kind == 'LSR':
        e = x + [0] * n
        return b.N.from_bits(e[n:n + w]), e[n - 1]
    if kind == 'ASR':
        e = x + [x[-1]] * n
        return b.N.from_bits(e[n:n + w]), e[n - 1]
    if kind == 'ROR':
        r = x[n % w:] + x[:n % w]
        return b.N.from_bits(r), r[-1]
    return b.N.from_bits(x[1:] + [cin]), x[0]


def amounts(w):
    return list(range(0, w + 3)) + [2 * w - 1, 2 * w, 2 * w + 1, 3 * w, 255]


def g_shifts(b, w, kind):
    N = b.N
    one = lambda node: N.lin(0, [(node, 1)])
    for n in amounts(w) if kind != 'RRX' else [1]:
        b.unit = '%s of %d bits by %d' % (kind, w, n)
        a, av = b.bs('a', w)
        c, cv = b.bs('c', 1)
        cin = b.bits(cv, 1)[0]
        v, co = shifted(b, av, w, kind, n, cin)
        arg = c if kind == 'RRX' else n
        if n or kind == 'RRX':
            b.loc_of(kind + '_C')
            r, live, raised = b.h(kind + '_C', a, arg)
            b.fine(P, kind + '_C', raised)
            b.results(kind + '_C', r, live, (('result', w, v), ('carry', 1, one(co))))
        b.loc_of(kind)
        r, live, raised = b.h(kind, a, arg)
        b.fine(P, kind, raised)
        b.is_bs(P, kind, r, w, v, live)
        b.loc_of('Shift_C')
        r, live, raised = b.h('Shift_C', a, kind, n, c)
        b.fine(P, 'Shift_C', raised)
        b.results('Shift_C', r, live, (('result', w, v), ('carry', 1, one(co))))
        b.loc_of('Shift')
        r, live, raised = b.h('Shift', a, kind, n, c)
        b.fine(P, 'Shift', raised)
        b.is_bs(P, 'Shift', r, w, v, live)
        b.kept(a, w, av)
        b.kept(c, 1, cv)
    if kind == 'LSL':
        for n in (0, 1, 5, w):
            b.unit = 'no shift of %d bits by %d' % (w, n)
            a, av = b.bs('a', w)
            c, cv = b.bs('c', 1)
            b.loc_of('Shift_C')
            r, live, raised = b.h('Shift_C', a, 'None', n, c)
            b.fine(P, 'Shift_C', raised)
            b.results('Shift_C', r, live, (('result', w, av), ('carry', 1, cv)))
            r, live, raised = b.h('Shift', a, 'None', n, c)
            b.fine(P, 'Shift', raised)
            b.is_bs(P, 'Shift', r, w, av, live)


def g_addwithcarry(b, w, kind):
    N, m = b.N, b.m
    a, av = b.bs('a', w)
    y, yv = b.bs('b', w)
    c, cv = b.bs('c', 1)
    b.unit = 'AddWithCarry on %d bits' % w
    b.loc_of('AddWithCarry')
    u = N.add(N.add(av, yv), cv)
    res = N.mod2(u, w)
    carry = m.not_(N.lt(u, 1 << w))
    sa, sb, sr = (b.bits(x, w)[-1] for x in (av, yv, res))
    ov = m.and_(m.not_(m.xor(sa, sb)), m.xor(sa, sr))
    r, live, raised = b.h('awc', a, y, c)
    b.fine(P, 'AddWithCarry', raised)
    b.results('AddWithCarry', r, live, (('result', w, res), ('carry', 1, N.lin(0, [(carry, 1)])), ('overflow', 1, N.lin(0, [(ov, 1)]))))
    b.kept(a, w, av)
    b.kept(y, w, yv)
    b.kept(c, 1, cv)


def g_align(b, w, kind):
    N = b.N
    b.loc_of('Align')
    for k in range(0, min(w, 9)):
        b.unit = 'Align of %d bits to %d' % (w, 1 << k)
        a, av = b.bs('a', w)
        r, live, raised = b.h('align', a, 1 << k)
        b.fine(P, 'Align', raised)
        b.is_bs(P, 'Align', r, w, N.sub(av, N.mod2(av, k)), live)
        b.kept(a, w, av)
        n = b.sym('n', w + 1, signed=True)
        r, live, raised = b.h('align', n, 1 << k)
        b.fine(P, 'Align', raised)
        b.num(P, 'Align of an integer', r, N.sub(n, N.mod2(n, k)), live)


def g_decode(b, w, kind):
    N, m = b.N, b.m
    b.unit = 'DecodeImmShift'
    b.loc_of('DecodeImmShift')
    t, tv = b.bs('type', 2)
    n, nv = b.bs('imm5', 5)
    r, live, raised = b.h('decode', t, n)
    b.fine(P, 'DecodeImmShift', raised)
    want = dict((k, 0) for k in ('LSL', 'LSR', 'ASR', 'ROR', 'RRX'))
    amt = 0
    for g, k, a in b.k.imm_shift(tv, nv):
        want[k] = m.or_(want[k], g)
        amt = N.ite(g, a, amt)
    for g, tup in b.I.alts(r):
        g = m.and_(g, live)
        if g == 0:
            continue
        for i, k in enumerate(('LSL', 'LSR', 'ASR', 'ROR', 'RRX')):
            b.boolean(P, 'DecodeImmShift: kind', tup[i], want[k], g, 'kind is %s' % k)
        b.num(P, 'DecodeImmShift: amount', tup[5], amt, g, 'amount')


def g_expand(b, w, kind):
    N, m = b.N, b.m
    b.unit = 'ThumbExpandImm'
    b.loc_of('ThumbExpandImm_C')
    i, iv = b.bs('imm12', 12)
    c, cv = b.bs('c', 1)
    val, rot, top = b.k.expand_imm(iv)
    cin = b.bits(cv, 1)[0]
    co = m.ite(rot, top, cin)
    r, live, raised = b.h('expand_c', i, c)
    b.fine(P, 'ThumbExpandImm_C', raised)
    b.results('ThumbExpandImm_C', r, live, (('result', 32, val), ('carry', 1, N.lin(0, [(co, 1)]))))
    b.loc_of('ThumbExpandImm')
    r, live, raised = b.h('expand', i)
    b.fine(P, 'ThumbExpandImm', raised)
    b.is_bs(P, 'ThumbExpandImm', r, 32, val, live)
    b.kept(i, 12, iv)
    b.kept(c, 1, cv)


def kept(self, x, w, v):
    """The operand still has its value: a helper's result never depends on an earlier call."""
    for g, w1, v1 in self.view(x, self.care):
        self.num(P, 'operands are unchanged', w1, w, g, 'the width of the operand')
        self.num(P, 'operands are unchanged', v1, v, g, 'the value of the operand')


Arch.kept = kept

GROUPS = {'shifts': g_shifts, 'awc': g_addwithcarry, 'align': g_align, 'decode': g_decode, 'expand': g_expand}


def tasks(tier):
    out = []
    for w in (32, 16, 8, 5) + ((2, 3, 7, 24, 31, 33, 64) if tier == 'thorough' else ()):
        for k in ('LSL', 'LSR', 'ASR', 'ROR', 'RRX'):
            out.append((MODULES, 'arch', ('shifts', w, k)))
    for w in (32, 64, 16, 8, 5, 2) + ((3, 4, 7, 24, 31, 33) if tier == 'thorough' else ()):
        out.append((MODULES, 'arch', ('awc', w, '')))
        out.append((MODULES, 'arch', ('align', w, '')))
    out += [(MODULES, 'arch', ('decode', 0, '')), (MODULES, 'arch', ('expand', 0, ''))]
    return out


def run(S, args, props):
    rep = Report()
    g, w, kind = args
    b = Arch(S, rep, '%s %s of %d bits' % (g, kind, w), props)
    try:
        GROUPS[g](b, w, kind)
    except Unsupported as e:
        rep.undecided(None, g, b.unit, 'not representable: %s' % e)
    rep.touch(S.I)
    return rep
