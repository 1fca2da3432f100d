"""Several machines side by side (C49) and the printed forms of the CPU model (C50)."""
from absint.num import SI, SB, Unsupported
from absint.values import *
from absint.session import Delegate
from absint import text as T
from .report import Report
from .model import NAMES, MDRV
from .model import Model
from .mock import Mock, XDRV
from .console import Console, joined

MODULES = ('cmdis', 'cmdis.bitstring', 'cmdis.model', 'cmdis.mock_cpu', 'cmdis.registers', 'cmdis.disasm')
IDRV = 'driver_indep'
ISRC = '''
from cmdis.model import CpuModel, CpuModelDelegate, CpuMode
from cmdis.mock_cpu import MockCpuModelDelegate
from cmdis.disasm import Disassembler, decoder
from cmdis.decoder import Instruction
def attach(c, d): c.delegate = d
def new(): return CpuModel()
def views(c): return (c.r, c.s, c.apsr)
def vget(v, i): return v[i]
def vset(v, i, x): v[i] = x
def fget(a, n): return getattr(a, n)
def fset(a, n, x): setattr(a, n, x)
def mode(c): return c.mode == CpuMode.Thread
def setmode(c): c.mode = CpuMode.Handler
def dump(c): c.dump()
def rep(c): return repr(c)
def mock(): return MockCpuModelDelegate()
def mocked():
    c = CpuModel()
    c.delegate = MockCpuModelDelegate()
    return c
def delegate(c): return c.delegate
class Mark(Instruction):
    def __init__(self, k, fail=False, address=0):
        Instruction.__init__(self, 'mark', 0xbf00, False)
        self.address = address
        self.k = k
        self.fail = fail
    def _eval(self, cpu):
        self.execute(cpu)
    def execute(self, cpu):
        cpu.write_register(self.k, 1 + len(trace))
        trace.append((self.k, cpu))
        if self.fail:
            raise ValueError('stop')
trace = []
def seq(c, ks, form, fail):
    del trace[:]
    items = [Mark(k, k == fail, (0x1000, 0x20, 0x30, 0x20)[n % 4]) for n, k in enumerate(ks)]
    if form == 'tuple':
        items = tuple(items)
    elif form == 'generator':
        items = (x for x in items)
    elif form == 'same':
        items = [items[0]] * len(items)
    n = 0
    try:
        c.execute(items)
    except ValueError:
        n = 1
    return n, [k for k, p in trace], [p is c for k, p in trace]
def again(c, ks, form):
    del trace[:]
    own = [Mark(k) for k in ks]
    items = tuple(own) if form == 'tuple' else list(own)
    c.execute(items)
    n = len(items)
    same = [x is y for x, y in zip(items, own)]
    c.execute(items)
    return n, same, [k for k, p in trace]
def program(c, code, addr):
    c.execute(Disassembler().disasm(code, addr))
def order(codes, addrs, pick):
    items = [decoder.decode(x, a) for x, a in zip(codes, addrs)]
    return [items[k] for k in pick]
def ordered(c, codes, addrs, pick):
    c.execute(order(codes, addrs, pick))
def stepped(c, codes, addrs, pick):
    for i in order(codes, addrs, pick):
        i.execute(c)
def single(c, code, addr):
    for i in list(Disassembler().disasm(code, addr)):
        i.execute(c)
'''
IDX = dict(NAMES)
REGS = sorted(set(IDX.values()))
RULE = 'what one machine does is not seen by another'


class Indep(Model):
    def __init__(self, S, rep, unit, only):
        S.driver(IDRV, ISRC)
        S.driver(XDRV, __import__('checks.mock', fromlist=['XSRC']).XSRC)
        Model.__init__(self, S, rep, unit, only)

    def i(self, fn, *args):
        return self.on(IDRV, fn, *args)

    def x(self, fn, *args):
        return self.on(XDRV, fn, *args)

    def on(self, drv, fn, *args):
        saved, self.drv = self.drv, drv
        try:
            return self.run(fn, *args)
        finally:
            self.drv = saved

    def iv(self, fn, *args):
        r, live, raised = self.i(fn, *args)
        if live != self.care:
            raise Unsupported('setup %s fails' % fn)
        return r

    def xv(self, fn, *args):
        r, live, raised = self.x(fn, *args)
        if live != self.care:
            raise Unsupported('setup %s fails' % fn)
        return r

    def untouched(self, d, rule, what):
        n = 0
        for g, name, args in d.calls:
            n += 1
            self.cmp.never('C49', rule, g, self.care, self.loc, '%s also calls %s of the other machine' % (what, name))
        if not n and self.wants('C49'):
            self.rep.good('C49', rule)

    say, lines, hex = Console.say, Console.lines, Console.hex


def ops(b):
    """(name, call) for everything a model does with its machine."""
    v = b.sym('v', 32)
    f = b.sym('f', 1)
    a = b.sym('addr', 32)
    out = []
    add = lambda name, fn, *args: out.append((name, lambda c: b.h(fn, c, *args)))
    for n in sorted(IDX):
        add('read of %s' % n, 'rd', n)
        add('write of %s' % n, 'wr', n, v)
    for n in ('pc', 'lr', 'sp', 'msp', 'psp', 'xpsr'):
        add('property %s' % n, 'g_' + n)
        add('property %s' % n, 's_' + n, v)
    for n in ('control', 'ipsr'):
        add('property %s' % n, 'g_' + n)
    add('pc_for_instr', 'pc4')
    add('is_privileged', 'priv')
    for n in 'nzcv':
        add('flag %s' % n, 'g_' + n)
        add('flag %s' % n, 's_' + n, f)
    for i in (0, 7, 13, 15):
        add('r[%d]' % i, 'rget', i)
        add('r[%d]' % i, 'rset', i, v)
    for i in (0, 9, 31):
        add('s[%d]' % i, 'sget', i)
        add('s[%d]' % i, 'sset', i, v)
    for n in (8, 16, 32):
        add('memory write', 'wmem', a, b.N.mod2(v, n), n)
        add('memory write', 'w%d' % n, a, b.N.mod2(v, n))
    add('block write', 'wblock', a, PByteArray([1, 2, 3], 1))
    return out


def reads(b):
    out = []
    a = b.sym('addr', 32)
    for n in (8, 16, 32):
        out.append(('memory read', lambda c, n=n: b.h('rmem', c, a, n)))
        out.append(('memory read', lambda c, n=n: b.h('r%d' % n, c, a)))
    out.append(('block read', lambda c: b.h('rblock', c, a, 4)))
    return out


def t_models(b, order):
    """Two models with a machine each: whatever is done through one reaches its own machine only."""
    b.loc = 'cmdis/model.py:CpuModel'
    for kind, all_ops in (('reads', reads(b)), ('writes', ops(b))):
        for name, op in all_ops:
            b.unit = '%s, two models (%s)' % (name, order)
            d1, d2 = Delegate(b.I), Delegate(b.I, '2')
            c1 = b.iv('new')
            if order == 'later':
                b.iv('attach', c1, d1)
                b.iv('views', c1)
                c2 = b.iv('new')
                b.iv('attach', c2, d2)
            else:
                c2 = b.iv('new')
                b.iv('attach', c2, d2)
                b.iv('attach', c1, d1)
            del d1.calls[:], d2.calls[:]
            r, live, raised = op(c1)
            b.fine(['C49'], RULE, raised)
            b.untouched(d2, RULE, name)
            if b.wants('C49'):
                b.cmp.never('C49', 'each model acts on its own machine', b.m.not_(b.m.any_([g for g, n, x in d1.calls])), live, b.loc,
                            '%s does not reach the machine of its model' % name)
            # the other way round
            del d1.calls[:], d2.calls[:]
            op(c2)
            b.untouched(d1, RULE, name)
            b.cmp.never('C49', 'each model acts on its own machine', b.m.not_(b.m.any_([g for g, n, x in d2.calls])), b.care, b.loc,
                        '%s does not reach the machine of its model' % name)


def t_reattach(b):
    """A model follows the machine attached to it, also through views fetched before."""
    b.loc = 'cmdis/model.py:CpuModel.delegate'
    rule = 'a model acts on the machine attached to it now'
    v = b.sym('v', 32)
    f = b.sym('f', 1)
    for name, op in ops(b) + reads(b):
        b.unit = '%s, another machine attached' % name
        d1, d2 = Delegate(b.I), Delegate(b.I, '2')
        c = b.iv('new')
        b.iv('attach', c, d1)
        op(c)
        b.iv('attach', c, d2)
        del d1.calls[:], d2.calls[:]
        r, live, raised = op(c)
        b.fine(['C49'], rule, raised)
        b.untouched(d1, rule, name)
        b.cmp.never('C49', rule, b.m.not_(b.m.any_([g for g, n, x in d2.calls])), live, b.loc, '%s does not reach the attached machine' % name)
    # values come from the machine attached now
    for n in sorted(IDX):
        b.unit = 'value of %s, another machine attached' % n
        d1, d2 = Delegate(b.I), Delegate(b.I, '2')
        c = b.iv('new')
        b.iv('attach', c, d1)
        b.h('rd', c, n)
        b.h('wr', c, n, v)
        b.iv('attach', c, d2)
        r, live, raised = b.h('rd', c, n)
        b.fine(['C49'], rule, raised)
        if live:
            b.is_bs(['C49'], rule, r, 32, d2.initial(IDX[n] & 0xff), live)
    for fetched in ('before', 'after'):
        b.unit = 'views fetched %s another machine is attached' % fetched
        d1, d2 = Delegate(b.I), Delegate(b.I, '2')
        c = b.iv('new')
        b.iv('attach', c, d1)
        vs = b.iv('views', c)
        if fetched == 'before':
            for k in (0, 1):
                b.iv('vset', vs[k], 3, v)
                b.iv('vget', vs[k], 3)
            for n in 'nzcv':
                b.iv('fset', vs[2], n, f)
        b.iv('attach', c, d2)
        if fetched == 'after':
            vs = b.iv('views', c)
        del d1.calls[:], d2.calls[:]
        for k, first in ((0, 0), (1, 0x40)):
            r = b.iv('vget', vs[k], 5)
            b.is_bs(['C49'], rule, r, 32, d2.initial(first + 5), b.care)
            b.iv('vset', vs[k], 5, v)
            b.num(['C49'], rule, d2.fold(first + 5, b.care), v, None, 'the register written through the view')
        for n, k in (('n', 31), ('z', 30), ('c', 29), ('v', 28)):
            r = b.iv('fget', vs[2], n)
            b.is_bs(['C49'], rule, r, 1, b.N.from_bits([b.bits(d2.initial(16), 32)[k]]), b.care)
        b.untouched(d1, rule, 'a view')


def t_mode(b):
    """The mode belongs to one model."""
    b.loc = 'cmdis/model.py:CpuModel.mode'
    b.unit = 'mode'
    c1, c2 = b.iv('new'), b.iv('new')
    b.boolean(['C49'], 'a new model is in the initial state', b.iv('mode', c1), 1)
    b.iv('setmode', c1)
    b.boolean(['C49'], 'the mode is kept', b.iv('mode', c1), 0)
    b.boolean(['C49'], RULE, b.iv('mode', c2), 1)
    c3 = b.iv('new')
    b.boolean(['C49'], 'a new model is in the initial state', b.iv('mode', c3), 1)


def state(b, d):
    return dict((i, b.xv('rr', d, i)) for i in REGS)


BLOCKS = ((0x1000, 6), (0x2000, 4))


def t_mocks(b, order):
    """Two mock machines: registers and memory of one are not those of the other."""
    b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate'
    b.unit = 'two mock machines (%s)' % order
    v = [b.sym('v%d' % k, 32) for k in range(4)]
    if order == 'before':
        d2 = b.iv('mock')
        d1 = b.iv('mock')
    else:
        d1 = b.iv('mock')
    init = state(b, d1)

    def busy(d, n):
        for k, i in enumerate(REGS):
            b.xv('wr', d, i, b.sym('w%d_%d' % (n, k), 32))
        for s, z in BLOCKS:
            b.xv('add', d, s, z)
            b.xv('wb', d, s, PByteArray([b.sym('m%d_%x_%d' % (n, s, k), 8) for k in range(z)], b.I.pc))
        b.xv('wm', d, 0x1002, v[0], 32)
        b.xv('wm', d, 0x2001, b.N.mod2(v[1], 16), 16)
        b.xv('rm', d, 0x1001, 32)
    if order == 'before':
        b.xv('add', d2, 0x1000, 6)
        busy(d1, 1)
    else:
        busy(d1, 1)
        d2 = b.iv('mock')
        got = b.xv('rm', d2, 0x1002, 32)
        b.num(['C49'], 'a new machine has no memory', got, 0, None, 'a word of memory')
        b.xv('add', d2, 0x1000, 6)
    now = state(b, d2)
    for i in REGS:
        b.num(['C49'], RULE if order == 'before' else 'a new machine is in the initial state', now[i], init[i], None, 'register %d' % i)
    for a in range(0xfff, 0x1007):
        b.num(['C49'], RULE, b.xv('rm', d2, a, 8), 0, None, 'the byte at %#x of the other machine' % a)
    for a in (0x2000, 0x2003):
        b.num(['C49'], RULE, b.xv('rm', d2, a, 8), 0, None, 'the byte at %#x, which the other machine alone has' % a)
    # and the other way round
    regs = state(b, d1)
    mem = [b.xv('rm', d1, s + k, 8) for s, z in BLOCKS for k in range(z)]
    for k, i in enumerate(REGS):
        b.xv('wr', d2, i, b.sym('u%d' % k, 32))
    for a in range(0x1000, 0x1006):
        b.xv('wm', d2, a, b.N.mod2(v[3], 8), 8)
    b.xv('wm', d2, 0x2000, v[2], 32)
    now = state(b, d1)
    for i in REGS:
        b.num(['C49'], RULE, now[i], regs[i], None, 'register %d' % i)
    for x, y in zip([b.xv('rm', d1, s + k, 8) for s, z in BLOCKS for k in range(z)], mem):
        b.num(['C49'], RULE, x, y, None, 'memory of the other machine')


def t_data(b):
    """Data handed to or received from a machine stays the caller's."""
    b.loc = 'cmdis/mock_cpu.py:MockCpuModelDelegate.write_memory_block'
    b.unit = 'blocks belong to the caller'
    d1, d2 = b.iv('mock'), b.iv('mock')
    for d in (d1, d2):
        b.xv('add', d, 0x100, 8)
    data = [b.sym('x%d' % k, 8) for k in range(8)]
    blk = PByteArray(list(data), b.I.pc)
    b.xv('wb', d1, 0x100, blk)
    b.xv('wb', d2, 0x100, blk)
    y = b.sym('y', 8)
    b.xv('wm', d1, 0x103, y, 8)
    its = b.I.nat.iter_items(b.I, blk)
    for k in range(8):
        b.num(['C49'], 'a block that was written stays as it is', its[k], data[k], None, 'byte %d' % k)
        b.num(['C49'], RULE, b.xv('rm', d2, 0x100 + k, 8), data[k], None, 'byte %d of the other machine' % k)
    got = b.xv('rb', d2, 0x100, 8)
    b.xv('wm', d2, 0x105, y, 8)
    its = b.I.nat.iter_items(b.I, got)
    for k in range(8):
        b.num(['C49'], 'a block that was read stays as it is', its[k], data[k], None, 'byte %d' % k)


# ------------------------------------------------------------------ C50
SHOWN = ['r%d' % k for k in range(13)] + ['sp', 'lr', 'pc']


def tokens(words):
    """NAME=VALUE pairs, wherever the white space is."""
    out = []
    flat = []
    for w in words:
        for p in T.parts_of(w):
            if isinstance(p, str):
                flat += list(p)
            else:
                flat.append(p)
        flat.append(' ')
    name, val, on = '', [], False
    k = 0
    while k < len(flat):
        p = flat[k]
        if on:
            if p == ' ' and val:
                out.append((name, T.norm(val)))
                name, val, on = '', [], False
            elif p != ' ':
                val.append(p)
        elif p == '=':
            on = True
        elif isinstance(p, str):
            if p == ' ' and k + 1 < len(flat) and flat[k + 1] not in ('=', ' '):
                name = ''
            elif p != ' ':
                name += p
        else:
            raise Unsupported('value without a name')
        k += 1
    return out


def t_dump(b):
    b.loc = 'cmdis/model.py:CpuModel.dump'
    b.unit = 'dump'
    d = Delegate(b.I)
    c = b.iv('new')
    b.iv('attach', c, d)
    v = {}
    for n in SHOWN:
        v[n] = b.sym('v_' + n, 32)
        b.h('wr', c, n, v[n])
    d.rlog_n = len(d.rlog)
    del d.calls[:]
    b.I.out = []
    r, live, raised = b.i('dump', c)
    b.fine(['C50'], 'the dump completes', raised)
    rule = 'the dump shows each register next to its name'
    if live == 0:
        return
    seen = set()
    for n, t in tokens([w for l in b.lines(b.I.out) for w in l]):
        ok = n in v and n not in seen
        if not ok:
            b.rep.violation('C50', rule, b.unit, 'the dump shows %s' % n, b.loc, {'name': n})
            continue
        seen.add(n)
        b.text(['C50'], rule, t, b.hex(v[n], 8), live)
    if seen == set(v):
        b.rep.good('C50', 'the dump shows all registers')
    else:
        b.rep.violation('C50', 'the dump shows all registers', b.unit, 'the dump does not show %s' % ', '.join(sorted(set(v) - seen)), b.loc,
                        {'missing': sorted(set(v) - seen)})
    for g, n, a in d.calls:
        b.cmp.never('C50', 'showing a model changes nothing', g if n.startswith('write') else 0, b.care, b.loc, '%s is called' % n)


def t_repr(b):
    b.loc = 'cmdis/model.py:CpuModel.__repr__'
    b.unit = 'repr'
    d = Delegate(b.I)
    c = b.iv('new')
    b.iv('attach', c, d)
    v = {}
    for n in SHOWN + ['xpsr']:
        v[n] = b.sym('v_' + n, 32)
        b.h('wr', c, n, v[n])
    del d.calls[:]
    r, live, raised = b.i('rep', c)
    b.fine(['C50'], 'repr completes', raised)
    if live:
        r = b.I.read(r, live)[0]
        parts = []
        for p in T.parts_of(r):
            parts.append(p)
        t = T.norm(parts)
        # everything after the identity of the object
        flat = []
        for p in T.parts_of(t):
            flat += list(p) if isinstance(p, str) else [p]
        k = next((i for i, p in enumerate(flat) if p == ' '), None)
        if k is None:
            raise Unsupported('form of repr')
        want = T.concat([' pc=', T.from_int(b.I, v['pc'], 'x'), ' xpsr=', T.from_int(b.I, v['xpsr'], 'x'), ' rN=[']
                        + [x for i, n in enumerate(SHOWN[:15]) for x in ((' ' if i else ''), T.from_int(b.I, v[n], 'x'))] + [']>'])
        b.text(['C50'], 'repr shows the registers', T.norm(flat[k:]), want, live)
    for g, n, a in d.calls:
        b.cmp.never('C50', 'showing a model changes nothing', g if n.startswith('write') else 0, b.care, b.loc, '%s is called' % n)


# ------------------------------------------------------------------ C52
PROGRAMS = (
    (0x1c40, 0x1889, 0x4018, 0x43c9, 0xbf00),          # adds, adds, ands, mvns, nop
    (0xf04f, 0x0207, 0x1812, 0xf241, 0x2334),          # mov.w, adds, movw
    (0x2005, 0xd001, 0x2106, 0x2207),                  # movs, beq, movs, movs: in the order given, wherever PC goes
    (0xb672, 0x4770, 0x3001),                          # cpsid i, bx lr, adds
    (0x4686, 0xf3ef, 0x8010, 0x4148),                  # mov lr, mrs, adcs
)


def t_sequence(b):
    b.loc = 'cmdis/model.py:CpuModel.execute'
    rule = 'instructions are executed once each, in the order given'
    for form in ('list', 'tuple', 'generator', 'same'):
        for ks in ((), (3,), (3, 1), (1, 2, 3, 4, 5), (7, 7, 2)):
            if form == 'same' and not ks:
                continue
            for fail in (None,) + ks[1:2]:
                if form == 'same' and fail is not None:
                    continue
                b.unit = '%s of %d instructions%s' % (form, len(ks), '' if fail is None else ', one fails')
                d = Delegate(b.I)
                c = b.iv('new')
                b.iv('attach', c, d)
                n, order, own = b.iv('seq', c, PList(list(ks), b.I.pc), form, fail)
                want = list(ks)
                if form == 'same':
                    want = [ks[0]] * len(ks)
                if fail is not None:
                    want = want[:want.index(fail) + 1]
                order, own = b.I.sequence(order), b.I.sequence(own)
                ok = list(order) == want and all(x is True for x in own)
                if ok:
                    b.rep.good('C52', rule)
                else:
                    b.rep.violation('C52', rule, b.unit, 'executed %s, expected %s' % (list(order), want), b.loc, {'executed': list(order)})
                b.num(['C52'], 'a failure ends the sequence and is reported', n, 0 if fail is None else 1)
    # the sequence belongs to the caller
    for form in ('list', 'tuple'):
        for ks in ((), (3,), (3, 1, 4, 2)):
            b.unit = 'the same %s of %d instructions executed twice' % (form, len(ks))
            d = Delegate(b.I)
            c = b.iv('new')
            b.iv('attach', c, d)
            n, same, order = b.iv('again', c, PList(list(ks), b.I.pc), form)
            b.num(['C52'], 'the sequence given stays as it is', n, len(ks), None, 'the number of instructions left')
            if all(x is True for x in b.I.sequence(same)):
                b.rep.good('C52', 'the sequence given stays as it is')
            else:
                b.rep.violation('C52', 'the sequence given stays as it is', b.unit, 'the sequence holds other instructions afterwards', b.loc, {'order': list(ks)})
            if list(b.I.sequence(order)) == list(ks) * 2:
                b.rep.good('C52', rule)
            else:
                b.rep.violation('C52', rule, b.unit, 'executed %s, expected %s' % (list(b.I.sequence(order)), list(ks) * 2), b.loc, {'order': list(ks)})
    # instructions from anywhere, in any order, some of them more than once
    codes = PList([bytes(x for h in hws for x in (h & 255, h >> 8)) for hws in ((0x1c40,), (0x0040,), (0xe7fe,), (0xf04f, 0x0107), (0x4148,), (0x4770,))], b.I.pc)
    for addrs, pick in (((0x1000, 0x20, 0x30, 0x20, 0, 2), (0, 1, 2, 3, 4, 5)), ((0, 2, 4, 6, 10, 12), (4, 1, 1, 0, 0, 4, 3, 0, 1)), ((8, 8, 8, 8, 8, 8), (5, 0, 2, 0, 4, 4, 1, 3))):
        b.unit = 'instructions %s' % ' '.join(str(k) for k in pick)
        ds = []
        for fn in ('ordered', 'stepped'):
            d = Delegate(b.I)
            c = b.iv('new')
            b.iv('attach', c, d)
            r, live, raised = b.i(fn, c, codes, PList(list(addrs), b.I.pc), PList(list(pick), b.I.pc))
            if fn == 'ordered':
                b.fine(['C52'], rule, raised)
            if live != b.care:
                raise Unsupported('the program fails')
            ds.append(d)
        for i in sorted(set(x & 0xff for x in REGS)):
            b.num(['C52'], 'a sequence has the effect of its instructions one after the other', ds[0].fold(i, b.care), ds[1].fold(i, b.care),
                  None, 'register %d' % i)
    for hws in PROGRAMS:
        b.unit = 'program %s' % ' '.join('%04x' % x for x in hws)
        code = bytes(x for h in hws for x in (h & 255, h >> 8))
        ds = []
        for fn in ('program', 'single'):
            d = Delegate(b.I)
            c = b.iv('new')
            b.iv('attach', c, d)
            r, live, raised = b.i(fn, c, code, 0x1000)
            if fn == 'program':
                b.fine(['C52'], rule, raised)
            if live != b.care:
                raise Unsupported('the program fails')
            ds.append(d)
        for i in sorted(set(x & 0xff for x in REGS)):
            b.num(['C52'], 'a decoded sequence has the effect of its instructions one after the other', ds[0].fold(i, b.care), ds[1].fold(i, b.care),
                  None, 'register %d' % i)


def tasks(prop, tier):
    if prop == 'C52':
        return [(MODULES, 'indep', ('sequence', ''))]
    if prop == 'C49':
        return [(MODULES, 'indep', x) for x in (('models', 'later'), ('models', 'earlier'), ('reattach', ''), ('mode', ''), ('mocks', 'before'),
                                                ('mocks', 'after'), ('data', ''))]
    return [(MODULES, 'indep', ('dump', '')), (MODULES, 'indep', ('repr', ''))]


def run(S, args, props):
    rep = Report()
    kind, x = args
    b = Indep(S, rep, kind, props)
    try:
        f = globals()['t_' + kind]
        f(b, x) if x else f(b)
    except Unsupported as e:
        rep.undecided(None, kind, b.unit, 'not representable: %s' % e)
    rep.touch(S.I)
    return rep
