"""Mock CPU: C31 (banked registers), C32 and C33 (memory)."""
from absint.num import SI, SB, Unsupported
from absint.values import *
from .report import Report
from .bits import Bits
from .model import NAMES

MODULES = ('cmdis', 'cmdis.bitstring', 'cmdis.model', 'cmdis.mock_cpu')
XDRV = 'driver_mock'
XSRC = '''
from cmdis.model import CpuModel
from cmdis.mock_cpu import MockCpuModelDelegate
def mock(): return MockCpuModelDelegate()
def cpu(d):
    c = CpuModel()
    c.delegate = d
    return c
def rr(d, i): return d.read_register(i)
def wr(d, i, v): d.write_register(i, v)
def crr(c, n): return c.read_register(n).unsigned
def cwr(c, n, v): c.write_register(n, v)
def g_sp(c): return c.sp.unsigned
def s_sp(c, v): c.sp = v
def g_msp(c): return c.msp.unsigned
def s_msp(c, v): c.msp = v
def g_psp(c): return c.psp.unsigned
def s_psp(c, v): c.psp = v
def add(d, a, n): d.add_memory(a, n)
def rm(d, a, n): return d.read_memory(a, n)
def rm0(d, a): return d.read_memory(a)
def wm(d, a, v, n): d.write_memory(a, v, n)
def wm0(d, a, v): d.write_memory(a, v)
def rb(d, a, n): return d.read_memory_block(a, n)
def wb(d, a, x): d.write_memory_block(a, x)
def wblist(d, a, x): d.write_memory_block(a, bytearray(x))
def crm(c, a, n): return c.read_memory(a, n).unsigned
def cwm(c, a, v, n): c.write_memory(a, v, n)
'''
IDX = dict(NAMES)
SP, MSP, PSP, CONTROL = 13, 17, 18, -4
MASKS = {-1: 1, -3: 1, -2: 0xff}


class Mock(Bits):
    def __init__(self, S, rep, unit, only):
        S.driver(XDRV, XSRC)
        Bits.__init__(self, S, rep, unit, only)

    def h(self, fn, *args):
        saved, self.drv = self.drv, XDRV
        try:
            return self.run(fn, *args)
        finally:
            self.drv = saved

    def v(self, fn, *args):
        r, live, raised = self.h(fn, *args)
        if live != self.care:
            raise Unsupported('setup %s fails' % fn)
        return r


# ------------------------------------------------------------------ C31
class Ref(object):
    """Reference register file."""

    def __init__(self, b):
        self.b = b
        self.r = {}

    def spsel(self):
        c = self.r.get(CONTROL, 0)
        return self.b.bits(c, 2)[1]

    def write(self, i, v):
        N, b = self.b.N, self.b
        if i in MASKS:
            v = N.mod2(v, MASKS[i].bit_length())
        elif i in (SP, MSP, PSP):
            v = N.sub(v, N.mod2(v, 2))
        if i == SP:
            s = self.spsel()
            self.r[PSP] = N.ite(s, v, self.r[PSP])
            self.r[MSP] = N.ite(s, self.r[MSP], v)
        else:
            self.r[i] = v

    def read(self, i):
        if i == SP:
            return self.b.N.ite(self.spsel(), self.r[PSP], self.r[MSP])
        return self.r.get(i)


ALLREGS = sorted(set(IDX.values()))


def check_regs(b, d, ref, rule, regs=ALLREGS):
    b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_register'
    for i in regs:
        want = ref.read(i)
        if want is None:
            continue
        r, live, raised = b.h('rr', d, i)
        b.fine(['C31'], 'register read', raised)
        name = [n for n in sorted(IDX) if IDX[n] == i][-1]
        b.num(['C31'], rule, r, want, live, name)


def t_regs(b, target, mode):
    """A history that reaches every stack pointer state, then one write of any register, then stack pointer writes."""
    d = b.v('mock')
    ref = Ref(b)
    k = [0]
    # unwritten registers keep what they hold
    for i in ALLREGS:
        if i not in (SP, MSP, PSP, CONTROL):
            ref.r[i] = b.v('rr', d, i)
    for i in (MSP, PSP, CONTROL):
        ref.r[i] = b.v('rr', d, i)

    def w(i, rule, vw=32):
        k[0] += 1
        v = b.sym('v%d' % k[0], vw)
        r, live, raised = b.h('wr', d, i, v)
        b.fine(['C31'], 'register write', raised)
        if live != 1:
            raise Unsupported('write fails')
        ref.write(i, v)
        return v
    b.unit = 'write of register %d, history %s' % (target, mode)
    check_regs(b, d, ref, 'initial state', (SP, MSP, PSP))
    for i in {'a': (MSP, PSP, CONTROL), 'b': (CONTROL, SP, CONTROL, SP), 'c': (PSP, CONTROL, MSP, SP, CONTROL)}[mode]:
        w(i, 'history')
        check_regs(b, d, ref, 'stack pointers follow CONTROL.SPSEL', (SP, MSP, PSP, CONTROL))
    w(target, 'target')
    check_regs(b, d, ref, 'a register write changes that register only')
    for i in (SP, MSP, PSP, CONTROL):
        w(i, 'after')
        check_regs(b, d, ref, 'stack pointers follow CONTROL.SPSEL', (SP, MSP, PSP, CONTROL, target))


def t_cpu(b):
    """The same registers through the CPU model and its properties."""
    b.unit = 'stack pointers through the CPU model'
    d = b.v('mock')
    c = b.v('cpu', d)
    ref = Ref(b)
    for i in (MSP, PSP, CONTROL):
        ref.r[i] = 0
    k = 0
    for fn, i in (('cwr:control', CONTROL), ('s_msp', MSP), ('s_psp', PSP), ('s_sp', SP), ('cwr:control', CONTROL), ('s_sp', SP),
                  ('s_psp', PSP), ('s_msp', MSP), ('cwr:sp', SP), ('cwr:r13', SP)):
        k += 1
        v = b.sym('v%d' % k, 32)
        if fn.startswith('cwr'):
            r, live, raised = b.h('cwr', c, fn[4:], v)
        else:
            r, live, raised = b.h(fn, c, v)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_register'
        b.fine(['C31'], 'write through the model', raised)
        ref.write(i, v)
        for g, j in (('g_sp', SP), ('g_msp', MSP), ('g_psp', PSP)):
            r, live, raised = b.h(g, c)
            b.fine(['C31'], 'read through the model', raised)
            b.num(['C31'], 'stack pointers through the model', r, ref.read(j), live, g[2:])
    for n, i in sorted(IDX.items()):
        if i in (SP, MSP, PSP, CONTROL):
            continue
        v = b.sym('w%d' % i, 32)
        r, live, raised = b.h('cwr', c, n, v)
        b.fine(['C31'], 'write through the model', raised)
        ref.write(i, v)
    for n, i in sorted(IDX.items()):
        r, live, raised = b.h('crr', c, n)
        b.fine(['C31'], 'read through the model', raised)
        b.num(['C31'], 'registers through the model', r, ref.read(i), live, n)


# ------------------------------------------------------------------ C32, C33
LAYOUTS = {
    'one': [(0x20000000, 8)],
    'small': [(0x1000, 1)],
    'zero': [(0, 6)],
    'top': [(0xfffffffa, 6)],
    'two': [(0x100, 6), (0x200, 5)],
    'adjacent': [(0x100, 5), (0x105, 6)],
    'reversed': [(0x208, 5), (0x200, 5)],
}


def region_of(layout, x):
    for s, n in layout:
        if s <= x < s + n:
            return (s, n)


def setup(b, layout):
    d = b.v('mock')
    bytes_ = {}
    for s, n in layout:
        b.v('add', d, s, n)
    for s, n in layout:
        for i in range(n):
            v = b.sym('m%x' % (s + i), 8)
            r, live, raised = b.h('wm', d, s + i, v, 8)
            b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_memory'
            b.fine(['C32', 'C33'], 'byte write', raised)
            bytes_[s + i] = v
    return d, bytes_


def observe(b, d, x, care=None):
    r, live, raised = b.h('rm', d, x, 8)
    b.fine(['C32', 'C33'], 'byte read', raised)
    return r


def check_bytes(b, props, rule, d, want, free=()):
    """Every byte of every region, and the absence of bytes around them."""
    for x in sorted(want):
        r, live, raised = b.h('rm', d, x, 8)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_memory_block'
        b.fine(props, 'byte read', raised)
        if x in free:
            alt = free[x]
            for p in props:
                if b.wants(p):
                    for g, v in b.I.alts(r):
                        g = b.m.and_(g, live)
                        if type(v) not in (int, SI):
                            b.cmp.never(p, rule, g, live, b.loc, 'the byte is of type %s' % b.I.nat.type_name(v))
                            continue
                        bad = b.m.and_(b.N.differ(v, want[x], g), b.N.differ(v, alt, g))
                        b.cmp.never(p, rule, bad, live, b.loc, 'the byte at 0x%x is neither kept nor written' % x)
        else:
            b.num(props, rule, r, want[x], live, 'the byte at 0x%x' % x)


def outside(b, layout):
    xs = set()
    for s, n in layout:
        xs |= {s - 1, s - 2, s - 4, s + n, s + n + 1, s + n + 3}
    return sorted(x for x in xs if 0 <= x < 1 << 32 and region_of(layout, x) is None)


def check_sizes(b, d, layout, rule):
    """No region grew or shrank: blocks past the end, words at the last byte and addresses around the regions."""
    for s, n in layout:
        r, live, raised = b.h('rb', d, s, n)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory_block'
        b.fine(['C32'], 'block read', raised)
        length(b, rule, r, n, live)
        if region_of(layout, s + n) is None:
            r, live, raised = b.h('rb', d, s, n + 4)
            b.fine(['C32'], 'block read', raised)
            length(b, rule, r, n, live, True)
    for x in outside(b, layout):
        for size in (8, 16, 32):
            if any(region_of(layout, x + i) for i in range(size // 8)) and x + size // 8 > 0:
                # a wider access that begins outside a region: only the first byte is known
                continue
            r, live, raised = b.h('rm', d, x, size)
            b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory'
            b.fine(['C32'], 'unmapped read', raised)
            b.num(['C32'], 'unmapped addresses read as zero', r, 0, live, 'the value at 0x%x' % x)


def length(b, rule, r, n, live, padded=False):
    for g, v in b.I.alts(r):
        g = b.m.and_(g, live)
        if g == 0 or not b.wants('C32'):
            continue
        its = b.I.nat.iter_items(b.I, v) if v is not None else ()
        for h, t in b.I.alts(its):
            h = b.m.and_(h, g)
            if h and type(t) is tuple:
                if padded:
                    for i, x in enumerate(t[n:]):
                        b.num(['C32'], rule, x, 0, h, 'byte %d past the region' % i)
                else:
                    b.num(['C32'], rule, len(t), n, h, 'the length of the region')


def t_write(b, layout_name, size, at):
    """One sized or block write at an arbitrary address near (or anywhere outside) the regions."""
    N, m = b.N, b.m
    layout = LAYOUTS[layout_name]
    d, mem = setup(b, layout)
    n = size // 8
    b.unit = 'write of %d bits at %s, regions %s' % (size, at if isinstance(at, str) else hex(at), layout_name)
    value = b.sym('value', 40, signed=True)
    data = [N.from_bits(b.bits(value, 40)[8 * i:8 * i + 8]) for i in range(n)]
    if at == 'far':
        # anywhere that touches no region
        addr = b.sym('addr', 32)
        near = 0
        for s, l in layout:
            near = m.or_(near, m.and_(m.not_(N.lt(N.add(addr, n - 1), s)), N.lt(addr, s + l)))
        b.care = m.not_(near)
        if b.care == 0:
            return
        new = dict(mem)
        free = {}
    else:
        addr = at
        new = dict(mem)
        free = {}
        home = region_of(layout, at)
        for i in range(n):
            x = at + i
            if x in new:
                if home and region_of(layout, x) == home:
                    new[x] = data[i]
                else:
                    free[x] = data[i]
    b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_memory'
    r, live, raised = b.h('wm', d, addr, value, size)
    b.fine(['C32', 'C33'], 'sized write', raised)
    check_bytes(b, ['C32'], 'a write changes exactly the addressed bytes', d, new, free)
    check_sizes(b, d, layout, 'regions keep their size')
    if at != 'far' and region_of(layout, at):
        inside = region_of(layout, at + n - 1) == region_of(layout, at)
        r, live, raised = b.h('rm', d, at, size)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory'
        b.fine(['C32', 'C33'], 'sized read', raised)
        if inside:
            b.num(['C33'], 'a value just written reads back', r, N.mod2(value, size), live, 'the value')
            for s2 in (8, 16, 32):
                for x in range(at - 3, at + n):
                    reads(b, d, layout, new, x, s2)


def reads(b, d, layout, mem, x, size, fn='rm'):
    """A sized read inside one region is the little-endian value of the bytes."""
    N = b.N
    n = size // 8
    if x < 0 or not region_of(layout, x) or region_of(layout, x) != region_of(layout, x + n - 1):
        return
    want = N.from_bits([q for i in range(n) for q in b.bits(mem[x + i], 8)])
    b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory'
    r, live, raised = b.h(fn, d, x, size)
    b.fine(['C33'], 'sized read', raised)
    b.num(['C33'], 'little-endian read', r, want, live, '%d bits at 0x%x' % (size, x))


def t_read(b, layout_name):
    """Reads of every size at every address, before any further write."""
    N, m = b.N, b.m
    layout = LAYOUTS[layout_name]
    d, mem = setup(b, layout)
    c = b.v('cpu', d)
    b.unit = 'reads, regions %s' % layout_name
    check_bytes(b, ['C32', 'C33'], 'bytes keep what was written', d, mem)
    check_sizes(b, d, layout, 'regions keep their size')
    for s, l in layout:
        for size in (8, 16, 32):
            for x in range(s, s + l):
                reads(b, d, layout, mem, x, size)
                reads(b, c, layout, mem, x, size, 'crm')
                # straddling reads never fail and show the bytes of the region
                r, live, raised = b.h('rm', d, x, size)
                b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory'
                b.fine(['C32'], 'sized read', raised)
        for x in (s, s + l - 1):
            if region_of(layout, x + 3) == region_of(layout, x):
                r, live, raised = b.h('rm0', d, x)
                b.fine(['C33'], 'default size', raised)
                b.num(['C33'], 'the default size is 32 bits', r,
                      N.from_bits([q for i in range(4) for q in b.bits(mem[x + i], 8)]), live)
        for x in range(s, s + l):
            for n in range(1, s + l - x + 1):
                blocks(b, d, mem, x, n)
    # unmapped everywhere
    addr = b.sym('addr', 32)
    for size in (8, 16, 32):
        near = 0
        for s, l in layout:
            near = m.or_(near, m.and_(m.not_(N.lt(N.add(addr, size // 8 - 1), s)), N.lt(addr, s + l)))
        b.care = m.not_(near)
        if b.care == 0:
            continue
        b.unit = 'unmapped read of %d bits, regions %s' % (size, layout_name)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory'
        r, live, raised = b.h('rm', d, addr, size)
        b.fine(['C32'], 'unmapped read', raised)
        b.num(['C32'], 'unmapped addresses read as zero', r, 0, live)
    b.care = 1


def blocks(b, d, mem, x, n):
    r, live, raised = b.h('rb', d, x, n)
    b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory_block'
    b.fine(['C33'], 'block read', raised)
    if not b.wants('C33'):
        return
    its = b.I.nat.iter_items(b.I, r) if r is not None and type(r) is not Choice else None
    if type(its) is tuple:
        b.num(['C33'], 'block read', len(its), n, live, 'the length')
        for i, v in enumerate(its[:n]):
            b.num(['C33'], 'block read', v, mem[x + i], live, 'byte %d' % i)
    elif r is None:
        b.cmp.never('C33', 'block read', live, live, b.loc, 'nothing is read')
    else:
        b.rep.undecided('C33', 'block read', b.unit, 'the result depends on the content')


def t_block(b, layout_name, n):
    """Block writes at every address around the regions."""
    N = b.N
    layout = LAYOUTS[layout_name]
    xs = set()
    for s, l in layout:
        xs |= set(range(s - n, s + l + 1))
    for at in sorted(x for x in xs if 0 <= x < 1 << 32):
        b.I.rollback() if False else None
        d, mem = setup(b, layout)
        b.unit = 'block write of %d bytes at 0x%x, regions %s' % (n, at, layout_name)
        value = b.sym('value', 8 * n)
        data = [N.from_bits(b.bits(value, 8 * n)[8 * i:8 * i + 8]) for i in range(n)]
        new, free = dict(mem), {}
        home = region_of(layout, at)
        for i in range(n):
            x = at + i
            if x in new:
                if home and region_of(layout, x) == home:
                    new[x] = data[i]
                else:
                    free[x] = data[i]
        r, live, raised = b.h('wb', d, at, PByteArray(data, 1))
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_memory_block'
        b.fine(['C32', 'C33'], 'block write', raised)
        check_bytes(b, ['C32'], 'a write changes exactly the addressed bytes', d, new, free)
        check_sizes(b, d, layout, 'regions keep their size')
        if home and region_of(layout, at + n - 1) == home:
            blocks(b, d, new, at, n)
            for size in (8, 16, 32):
                for x in range(at - 3, at + n):
                    reads(b, d, layout, new, x, size)


def t_sym(b, layout_name, size):
    """A write at a symbolic address inside a region."""
    N, m = b.N, b.m
    layout = LAYOUTS[layout_name]
    for s, l in layout:
        d, mem = setup(b, layout)
        n = size // 8
        b.unit = 'write of %d bits anywhere in region 0x%x, regions %s' % (size, s, layout_name)
        off = b.sym('offset', 4)
        b.care = N.lt(off, l)
        addr = N.add(off, s)
        value = b.sym('value', 32)
        r, live, raised = b.h('wm', d, addr, value, size)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_memory'
        b.fine(['C32', 'C33'], 'sized write', raised)
        for x in sorted(mem):
            want = mem[x]
            for i in range(n):
                if s <= x < s + l:
                    want = N.ite(N.eq(addr, x - i), N.from_bits(b.bits(value, 32)[8 * i:8 * i + 8]), want)
            hit = m.any_([N.eq(addr, x - i) for i in range(n)])
            r, live, raised = b.h('rm', d, x, 8)
            if not s <= x < s + l:
                b.num(['C32'], 'a write changes exactly the addressed bytes', r, want, m.and_(live, m.not_(hit)), 'the byte at 0x%x' % x)
            else:
                b.num(['C32'], 'a write changes exactly the addressed bytes', r, want, live, 'the byte at 0x%x' % x)
        b.care = m.and_(b.care, N.lt(N.add(off, n - 1), l))
        if b.care:
            r, live, raised = b.h('rm', d, addr, size)
            b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory'
            b.fine(['C33'], 'sized read', raised)
            b.num(['C33'], 'a value just written reads back', r, N.mod2(value, size), live, 'the value')
        b.care = 1


def t_two(b, layout_name, s1, s2):
    """Two writes after each other."""
    N = b.N
    layout = LAYOUTS[layout_name]
    s, l = layout[0]
    for a1 in range(s, s + l):
        for a2 in range(s, s + l):
            d, mem = setup(b, layout)
            b.unit = 'writes of %d and %d bits, regions %s' % (s1, s2, layout_name)
            new = dict(mem)
            for k, (a, size) in enumerate(((a1, s1), (a2, s2))):
                v = b.sym('v%d' % k, 32)
                r, live, raised = b.h('wm', d, a, v, size)
                b.fine(['C32', 'C33'], 'sized write', raised)
                for i in range(size // 8):
                    if region_of(layout, a + i) == (s, l):
                        new[a + i] = N.from_bits(b.bits(v, 32)[8 * i:8 * i + 8])
            free = dict((x, v) for x, v in new.items() if region_of(layout, x) != (s, l))
            check_bytes(b, ['C32', 'C33'], 'bytes after two writes', d, dict((x, v) for x, v in new.items() if x not in free))
            check_sizes(b, d, layout, 'regions keep their size')


BIG = {
    'code and ram': [(0x2000, 0x11000), (0x20000000, 0x10800)],
    'from zero': [(0, 0x20010)],
    'to the top': [(0xfffe0000, 0x20000)],
    'megabyte': [(0x8000001, 0x100014)],
}


def t_big(b, name, fn):
    """Regions larger than any power-of-two window: the bytes around every power of two are distinct places."""
    N = b.N
    d = b.v('mock')
    c = b.v('cpu', d)
    b.unit = 'large regions %s, %s' % (name, fn)
    pts = []
    for s, n in BIG[name]:
        b.v('add', d, s, n)
        offs = {0, 4, n - 4, n - 8}
        for k in range(3, 21):
            for q in ((1 << k) - 4, 1 << k, (1 << k) + 4, (1 << k) + (1 << (k - 1)), n - (1 << k)):
                if 0 <= q <= n - 4:
                    offs.add(q)
        offs = sorted(offs)
        last = None
        for q in offs:
            if last is None or q >= last + 4:
                pts.append(s + q)
                last = q
    want = {}
    for k, x in enumerate(pts):
        v = b.sym('p%d' % k, 32)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_memory'
        if fn == 'sized':
            r, live, raised = b.h('wm', d, x, v, 32)
        elif fn == 'model':
            r, live, raised = b.h('cwm', c, x, v, 32)
        else:
            bits = b.bits(v, 32)
            r, live, raised = b.h('wb', d, x, PByteArray([N.from_bits(bits[8 * i:8 * i + 8]) for i in range(4)], 1))
        b.fine(['C32', 'C33'], 'write', raised)
        want[x] = v
    for x in pts:
        bits = b.bits(want[x], 32)
        b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.read_memory'
        for size in (32, 8):
            r, live, raised = b.h('rm', d, x, size)
            b.fine(['C32', 'C33'], 'read', raised)
            b.num(['C32', 'C33'], 'every place of a large region is its own', r, N.from_bits(bits[:size]), live, 'the value at 0x%x' % x)
        r, live, raised = b.h('crm', c, x, 32)
        b.num(['C32', 'C33'], 'every place of a large region is its own', r, want[x], live, 'the value at 0x%x' % x)
        r, live, raised = b.h('rb', d, x, 4)
        b.fine(['C33'], 'block read', raised)
        its = b.I.nat.iter_items(b.I, r) if r is not None and type(r) is not Choice else None
        if type(its) is tuple and b.wants('C33'):
            b.num(['C33'], 'block read', len(its), 4, live, 'the length')
            for i, v in enumerate(its[:4]):
                b.num(['C33'], 'block read', v, N.from_bits(bits[8 * i:8 * i + 8]), live, 'byte %d' % i)
    for s, n in BIG[name]:
        for x in (s - 4, s + n, s + n + 4):
            if 0 <= x < 1 << 32:
                r, live, raised = b.h('rm', d, x, 32)
                b.fine(['C32'], 'read', raised)
                b.num(['C32'], 'unmapped addresses read as zero', r, 0, live, 'the value at 0x%x' % x)
    # nothing but the written places changed, and the region has kept its size
    for s, n in BIG[name]:
        if n > 0x30000:
            continue
        r, live, raised = b.h('rb', d, s, n)
        its = b.I.nat.iter_items(b.I, r) if r is not None and type(r) is not Choice else None
        if type(its) is not tuple:
            b.rep.undecided('C32', 'content of a large region', b.unit, 'the content depends on the state')
            continue
        b.num(['C32'], 'regions keep their size', len(its), n, live, 'the length of the region')
        mine = {x + i for x in pts for i in range(4)}
        bad = [i for i, v in enumerate(its) if s + i not in mine and not (type(v) is int and v == 0)]
        if bad:
            b.num(['C32'], 'a write changes exactly the addressed bytes', its[bad[0]], 0, live, 'the byte at 0x%x' % (s + bad[0]))
        else:
            b.num(['C32'], 'a write changes exactly the addressed bytes', 0, 0, live, 'all other bytes')


def tasks(prop, tier):
    out = []
    if prop == 'C31':
        for i in ALLREGS:
            for mode in 'abc':
                out.append((MODULES, 'mock', ('regs', i, mode)))
        out.append((MODULES, 'mock', ('cpu', 0, 0)))
        return out
    for name, layout in sorted(LAYOUTS.items()):
        out.append((MODULES, 'mock', ('read', name, 0)))
        for size in (8, 16, 32):
            ats = set()
            for s, l in layout:
                ats |= set(range(s - 4, s + l + 2))
            for at in sorted(x for x in ats if 0 <= x < 1 << 32):
                out.append((MODULES, 'mock', ('write', name, (size, at))))
            out.append((MODULES, 'mock', ('write', name, (size, 'far'))))
            out.append((MODULES, 'mock', ('sym', name, size)))
        for n in (1, 2, 3, 4, 6) + ((5, 7, 9, 12) if tier == 'thorough' else ()):
            out.append((MODULES, 'mock', ('block', name, n)))
    for name in sorted(BIG):
        for fn in ('sized', 'model', 'block'):
            if tier == 'thorough' or name != 'megabyte' or fn == 'sized':
                out.append((MODULES, 'mock', ('big', name, fn)))
    for name in ('one', 'two') + (('zero', 'top', 'adjacent') if tier == 'thorough' else ()):
        for s1 in (8, 16, 32):
            for s2 in (8, 16, 32):
                out.append((MODULES, 'mock', ('two', name, (s1, s2))))
    return out


def run(S, args, props):
    rep = Report()
    g, x, y = args
    b = Mock(S, rep, '%s %s %s' % args, props)
    try:
        if g == 'regs':
            t_regs(b, x, y)
        elif g == 'cpu':
            t_cpu(b)
        elif g == 'read':
            t_read(b, x)
        elif g == 'big':
            t_big(b, x, y)
        elif g == 'write':
            t_write(b, x, *y)
        elif g == 'sym':
            t_sym(b, x, y)
        elif g == 'two':
            t_two(b, x, *y)
        else:
            t_block(b, x, y)
    except Unsupported as e:
        rep.undecided(None, g, b.unit, 'not representable: %s' % e)
    rep.touch(S.I)
    return rep
