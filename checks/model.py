"""CPU model and delegate: C28, C29, C30."""
from absint.num import SI, SB, Unsupported
from absint.values import *
from absint.session import Delegate
from .report import Report
from .bits import Bits

MODULES = ('cmdis', 'cmdis.bitstring', 'cmdis.model')
MDRV = 'driver_model'
MSRC = '''
from cmdis.model import CpuModel, CpuModelDelegate
from cmdis.bitstring import bitstring
def cpu(d):
    c = CpuModel()
    c.delegate = d
    return c
def bare():
    return CpuModel()
def based():
    c = CpuModel()
    c.delegate = CpuModelDelegate()
    return c
def delegate(c): return c.delegate
def rd(c, n): return c.read_register(n)
def wr(c, n, v): c.write_register(n, v)
def rget(c, i): return c.r[i]
def rset(c, i, v): c.r[i] = v
def sget(c, i): return c.s[i]
def sset(c, i, v): c.s[i] = v
def g_pc(c): return c.pc
def s_pc(c, v): c.pc = v
def g_lr(c): return c.lr
def s_lr(c, v): c.lr = v
def g_sp(c): return c.sp
def s_sp(c, v): c.sp = v
def g_msp(c): return c.msp
def s_msp(c, v): c.msp = v
def g_psp(c): return c.psp
def s_psp(c, v): c.psp = v
def g_xpsr(c): return c.xpsr
def s_xpsr(c, v): c.xpsr = v
def g_control(c): return c.control
def g_ipsr(c): return c.ipsr
def pc4(c): return c.pc_for_instr
def priv(c): return c.is_privileged
def g_n(c): return c.apsr.n
def g_z(c): return c.apsr.z
def g_c(c): return c.apsr.c
def g_v(c): return c.apsr.v
def s_n(c, x): c.apsr.n = x
def s_z(c, x): c.apsr.z = x
def s_c(c, x): c.apsr.c = x
def s_v(c, x): c.apsr.v = x
def rmem(c, a, n): return c.read_memory(a, n)
def rmem0(c, a): return c.read_memory(a)
def wmem(c, a, v, n): c.write_memory(a, v, n)
def wmem0(c, a, v): c.write_memory(a, v)
def r8(c, a): return c.read8(a)
def r16(c, a): return c.read16(a)
def r32(c, a): return c.read32(a)
def w8(c, a, v): c.write8(a, v)
def w16(c, a, v): c.write16(a, v)
def w32(c, a, v): c.write32(a, v)
def rblock(c, a, n): return c.read_memory_block(a, n)
def wblock(c, a, d): c.write_memory_block(a, d)
def dwr(d, i, v): d.write_register(i, v)
'''

NAMES = dict(('r%d' % i, i) for i in range(16))
NAMES.update(sp=13, lr=14, pc=15, xpsr=16, msp=17, psp=18, control=-4, faultmask=-3, basepri=-2, primask=-1, fpscr=33)
NAMES.update(('s%d' % i, 0x40 + i) for i in range(32))
PROPS_RW = ('pc', 'lr', 'sp', 'msp', 'psp', 'xpsr')


class Model(Bits):
    def __init__(self, S, rep, unit, only):
        S.driver(MDRV, MSRC)
        Bits.__init__(self, S, rep, unit, only)

    def h(self, fn, *args):
        saved, self.drv = self.drv, MDRV
        try:
            return self.run(fn, *args)
        finally:
            self.drv = saved

    def machine(self):
        d = Delegate(self.I)
        saved, self.drv = self.drv, MDRV
        try:
            return self.value('cpu', d), d
        finally:
            self.drv = saved

    def odd(self, d):
        for g, what, tn, l in d.odd:
            self.cmp.never('C30', 'plain integers', g, self.care, '%s:%s:%d' % tuple(l) if isinstance(l, (tuple, list)) and len(l) == 3
                           else str(l), '%s passed to the delegate is a %s' % (what, tn))
        if not d.odd and self.wants('C30'):
            self.rep.good('C30', 'plain integers')


def same_index(b, idx, want):
    if type(want) is not SI and want < 0:
        want &= 0xff
    return idx, want


def one_call(b, props, rule, d, name, want, live):
    """The delegate saw exactly the call name(*want), whenever live."""
    I, m = b.I, b.m
    seen = 0
    for g, n, args in d.calls:
        g = m.and_(g, live)
        if g == 0:
            continue
        for p in props:
            b.cmp.never(p, rule, m.and_(g, seen), live, b.loc, 'the delegate is called more than once')
        if n != name:
            for p in props:
                b.cmp.never(p, rule, g, live, b.loc, 'the delegate method %s is called, not %s' % (n, name))
            continue
        seen = m.or_(seen, g)
        for what, x, w in zip(('address or register', 'value or size', 'size'), args, want):
            if w is ANY:
                continue
            for p in props:
                b.num([p], rule, x, w, g, what)
    for p in props:
        b.cmp.never(p, rule, m.and_(live, m.not_(seen)), live, b.loc, 'the delegate is not called')


ANY = object()


def t_name(b, name, idx):
    """C28: read and write by name, alias, number."""
    N = b.N
    code = idx & 0xff if idx < 0 else idx
    for spelled in (name, name.upper(), name.capitalize(), idx):
        b.unit = 'register %r' % (spelled,)
        b.loc = 'cmdis/model.py:CpuModel.read_register'
        cpu, d = b.machine()
        r, live, raised = b.h('rd', cpu, spelled)
        b.fine(['C28'], 'read by name or number', raised)
        one_call(b, ['C28'], 'read by name or number', d, 'read_register', (code,), 1)
        b.is_bs(['C28'], 'read value', r, 32, d.initial(code), live)
        b.odd(d)
        writes(b, 'write by name or number', 'wr', (spelled,), code)
    for prop in PROPS_RW + ('control',):
        if NAMES[prop] != idx:
            continue
        b.unit = 'property %s' % prop
        b.loc = 'cmdis/model.py:CpuModel.%s' % prop
        cpu, d = b.machine()
        r, live, raised = b.h('g_' + prop, cpu)
        b.fine(['C28'], 'property read', raised)
        one_call(b, ['C28'], 'property read', d, 'read_register', (code,), 1)
        b.is_bs(['C28'], 'property value', r, 32, d.initial(code), live)
        if prop != 'control':
            writes(b, 'property write', 's_' + prop, (), code)


def writes(b, rule, fn, args, code):
    for kind in ('bits', 'int'):
        cpu, d = b.machine()
        if kind == 'bits':
            x, v = b.bs('v', 32)
        else:
            x = v = b.sym('v', 32)
        r, live, raised = b.h(fn, cpu, *(args + (x,)))
        b.fine(['C28'], rule, raised)
        one_call(b, ['C28'], rule, d, 'write_register', (code, v), 1)
        b.odd(d)
        # read back through the register number
        r, live, raised = b.h('rd', cpu, code if code < 0xf0 else code - 256)
        b.is_bs(['C28'], 'read back', r, 32, v, live)
        if kind == 'bits':
            b.kept28(x, v)


def kept28(self, x, v):
    for g, w1, v1 in self.view(x, self.care):
        self.num(['C28'], 'the written value object is unchanged', v1, v, g, 'the value')


Model.kept28 = kept28


def t_view(b):
    """C28: register-array views over a symbolic index."""
    N, m = b.N, b.m
    for view, first, size in (('r', 0, 16), ('s', 0x40, 32)):
        key = b.sym('key', 10, signed=True)
        inside = m.and_(m.not_(N.lt(key, 0)), N.lt(key, size))
        b.unit = 'register view %s' % view
        for op in ('get', 'set'):
            b.loc = 'cmdis/model.py:RegistersInterface.__%sitem__' % op
            for care, ok in ((inside, True), (m.not_(inside), False)):
                cpu, d = b.machine()
                b.care = care
                v = b.sym('v', 32)
                args = (cpu, key) if op == 'get' else (cpu, key, v)
                r, live, raised = b.h('%s%s' % (view, op), *args)
                if ok:
                    b.fine(['C28'], 'index inside the view', raised, care)
                    idx = N.simplify(N.add(key, first), care)
                    if op == 'get':
                        one_call(b, ['C28'], 'index inside the view', d, 'read_register', (idx,), care)
                    else:
                        one_call(b, ['C28'], 'index inside the view', d, 'write_register', (idx, v), care)
                    b.odd(d)
                else:
                    b.refused(['C28'], 'index outside the view', live, raised, ('KeyError',), care, 'an index outside the view')
                    for g, n, a in d.calls:
                        b.cmp.never('C28', 'index outside the view', g, care, b.loc, 'the delegate is called')
                b.care = 1
        for k in range(size):
            cpu, d = b.machine()
            r, live, raised = b.h(view + 'get', cpu, k)
            b.fine(['C28'], 'view element', raised)
            b.is_bs(['C28'], 'view element', r, 32, d.initial(first + k), live)
            cpu, d = b.machine()
            x, v = b.bs('v', 32)
            r, live, raised = b.h(view + 'set', cpu, k, x)
            b.fine(['C28'], 'view element', raised)
            one_call(b, ['C28'], 'view element', d, 'write_register', (first + k, v), 1)
            b.odd(d)
            r, live, raised = b.h('rd', cpu, '%s%d' % (view, k))
            b.is_bs(['C28'], 'view element and name agree', r, 32, v, live)


def t_derived(b):
    """C28: values derived from a register."""
    N = b.N
    b.unit = 'derived properties'
    cpu, d = b.machine()
    b.loc = 'cmdis/model.py:CpuModel.pc_for_instr'
    r, live, raised = b.h('pc4', cpu)
    b.fine(['C28'], 'pc_for_instr', raised)
    b.is_bs(['C28'], 'pc_for_instr', r, 32, N.mod2(N.add(d.initial(15), 4), 32), live)
    b.loc = 'cmdis/model.py:CpuModel.ipsr'
    r, live, raised = b.h('g_ipsr', cpu)
    b.fine(['C28'], 'ipsr', raised)
    b.is_bs(['C28'], 'ipsr', r, 9, N.mod2(d.initial(16), 9), live)
    b.loc = 'cmdis/model.py:CpuModel.is_privileged'
    r, live, raised = b.h('priv', cpu)
    b.fine(['C28'], 'is_privileged', raised)
    b.boolean(['C28'], 'is_privileged', r, b.m.not_(b.bits(d.initial(0xfc), 32)[0]), live)
    cpu2, d2 = b.machine()
    r, live, raised = b.h('delegate', cpu2)
    b.cmp.never('C28', 'delegate', 0 if r is d2 else 1, 1, 'cmdis/model.py:CpuModel.delegate', 'the delegate property is not the delegate set')


FLAGS = {'n': 31, 'z': 30, 'c': 29, 'v': 28}


def t_flag(b, f):
    N, m = b.N, b.m
    k = FLAGS[f]
    b.unit = 'flag %s' % f
    b.loc = 'cmdis/model.py:ApsrAlias.%s' % f
    cpu, d = b.machine()
    r, live, raised = b.h('g_' + f, cpu)
    b.fine(['C29'], 'flag read', raised)
    b.is_bs(['C29'], 'flag read', r, 1, N.from_bits([b.bits(d.initial(16), 32)[k]]), live)
    for g, n, a in d.calls:
        b.cmp.never('C29', 'reading a flag writes nothing', g if n != 'read_register' else 0, 1, b.loc, '%s is called' % n)
    one = b.sym('x', 1)
    for what, x, v in (('int', one, one), ('0', 0, 0), ('1', 1, 1), ('True', True, 1), ('False', False, 0), ('text 0', '0', 0),
                       ('text 1', '1', 1), ('bits', None, None)):
        if x is None:
            x, v = b.bs('x', 1)
        b.unit = 'flag %s written with %s' % (f, what)
        cpu, d = b.machine()
        before = list(b.bits(d.initial(16), 32))
        r, live, raised = b.h('s_' + f, cpu, x)
        b.fine(['C29'], 'flag write', raised)
        before[k] = b.bits(v, 1)[0]
        b.num(['C29'], 'flag write', d.fold(16, 1), N.from_bits(before), live, 'the status register')
        for g, i, y in d.rlog:
            b.cmp.never('C29', 'a flag write changes the status register only', m.and_(g, m.not_(N.eq(i, 16))), 1, b.loc,
                        'another register is written')
        for g, n, a in d.calls:
            b.cmp.never('C29', 'a flag write changes the status register only', g if 'memory' in n else 0, 1, b.loc, 'memory is accessed')
        b.odd(d)
        for f2 in sorted(FLAGS):
            r, live, raised = b.h('g_' + f2, cpu)
            b.fine(['C29'], 'flag read back', raised)
            b.is_bs(['C29'], 'flag read back', r, 1, N.from_bits([before[FLAGS[f2]]]), live)


def routes(b, cpu, d, n, idx):
    """Every way to change a register."""
    out = [('the delegate', lambda v: b.h('dwr', d, idx, v))]
    for a in sorted(x for x in NAMES if NAMES[x] == idx):
        out.append(('write_register(%s)' % a, lambda v, a=a: b.h('wr', cpu, a, v)))
        if a in PROPS_RW:
            out.append(('property %s' % a, lambda v, a=a: b.h('s_' + a, cpu, v)))
    if 0 <= idx < 16:
        out.append(('r[%d]' % idx, lambda v: b.h('rset', cpu, idx, v)))
    if idx >= 0x40:
        out.append(('s[%d]' % (idx - 0x40), lambda v: b.h('sset', cpu, idx - 0x40, v)))
    return out


def readers(b, cpu, n, idx):
    out = []
    for a in sorted(x for x in NAMES if NAMES[x] == idx):
        out.append(('read_register(%s)' % a, lambda a=a: b.h('rd', cpu, a)))
        if a in PROPS_RW + ('control',):
            out.append(('property %s' % a, lambda a=a: b.h('g_' + a, cpu)))
    if 0 <= idx < 16:
        out.append(('r[%d]' % idx, lambda: b.h('rget', cpu, idx)))
    if idx >= 0x40:
        out.append(('s[%d]' % (idx - 0x40), lambda: b.h('sget', cpu, idx - 0x40)))
    return out


def derived(b, cpu, d, idx):
    """What is derived from a register follows it."""
    N, rule = b.N, 'a derived value is that of the register as it is now'
    if idx == 15:
        r, live, raised = b.h('pc4', cpu)
        b.is_bs(['C28'], rule, r, 32, N.mod2(N.add(d.fold(15, 1), 4), 32), live)
    elif idx == 16:
        r, live, raised = b.h('g_ipsr', cpu)
        b.is_bs(['C28'], rule, r, 9, N.mod2(d.fold(16, 1), 9), live)
    elif idx == -4:
        r, live, raised = b.h('priv', cpu)
        b.boolean(['C28'], rule, r, b.m.not_(b.bits(d.fold(0xfc, 1), 32)[0]), live)
    else:
        return
    b.fine(['C28'], rule, raised)


def t_changes(b, idx):
    """C28: a register is read as it is now, by whatever way it was changed and however it was read before."""
    N = b.N
    low = {13: 2, 15: 1}.get(idx, 0)
    for k in range(len(routes(b, None, None, '', idx))):
        cpu, d = b.machine()
        how, change = routes(b, cpu, d, '', idx)[k]
        rs = readers(b, cpu, '', idx)
        b.unit = 'register %d changed by %s' % (idx, how)
        b.loc = 'cmdis/model.py:CpuModel'
        for rnd in range(3):
            for who, read in rs:
                if rnd:
                    r, live, raised = read()
                    b.fine(['C28'], 'a register is read as it is now', raised)
                    b.is_bs(['C28'], 'a register is read as it is now', r, 32, d.fold(idx & 0xff if idx < 0 else idx, 1), live)
                else:
                    read()
            derived(b, cpu, d, idx)
            v = b.sym('v%d' % rnd, 32 - low)
            r, live, raised = change(N.mulc(v, 1 << low) if low else v)
            b.fine(['C28'], 'a register is read as it is now', raised)


def t_flags(b, f1):
    """C29: flag writes among other changes of the status register."""
    N, m = b.N, b.m
    b.loc = 'cmdis/model.py:ApsrAlias'
    for f2 in 'nzcv':
        for k in range(len(routes(b, None, None, 'xpsr', 16)) + 1):
            for look in (False, True):
                cpu, d = b.machine()
                rt = routes(b, cpu, d, 'xpsr', 16)
                how, change = rt[k] if k < len(rt) else ('nothing', None)
                b.unit = 'flag %s, then %s, then flag %s%s' % (f1, how, f2, ', read in between' if look else '')
                now = list(b.bits(d.initial(16), 32))

                def check(what):
                    b.num(['C29'], 'flag writes in sequence', d.fold(16, 1), N.from_bits(now), 1, 'the status register ' + what)

                def peek():
                    for f in sorted(FLAGS) if look else ():
                        r, live, raised = b.h('g_' + f, cpu)
                        b.fine(['C29'], 'flag writes in sequence', raised)
                        b.is_bs(['C29'], 'flag writes in sequence', r, 1, N.from_bits([now[FLAGS[f]]]), live)
                peek()
                x, y, v = b.sym('x', 1), b.sym('y', 1), b.sym('word', 32)
                b.h('s_' + f1, cpu, x)
                now[FLAGS[f1]] = b.bits(x, 1)[0]
                check('after flag ' + f1)
                peek()
                if change:
                    change(v)
                    now = list(b.bits(v, 32))
                    peek()
                r, live, raised = b.h('s_' + f2, cpu, y)
                b.fine(['C29'], 'flag writes in sequence', raised)
                now[FLAGS[f2]] = b.bits(y, 1)[0]
                check('after flag ' + f2)
                peek()
                b.h('s_' + f1, cpu, y)
                now[FLAGS[f1]] = b.bits(y, 1)[0]
                check('after flag %s again' % f1)
                peek()


def t_memory(b):
    """C30: forwarding to the delegate."""
    N, m = b.N, b.m
    for akind in ('int', 'bits'):
        def addr():
            if akind == 'bits':
                return b.bs('addr', 32)
            v = b.sym('addr', 32)
            return v, v
        for fn, size, extra in (('rmem', 8, (8,)), ('rmem', 16, (16,)), ('rmem', 32, (32,)), ('rmem0', 32, ()), ('r8', 8, ()),
                                ('r16', 16, ()), ('r32', 32, ())):
            b.unit = '%s of %d bits, address as %s' % (fn, size, akind)
            b.loc = 'cmdis/model.py:CpuModel.read_memory'
            cpu, d = b.machine()
            a, av = addr()
            r, live, raised = b.h(fn, cpu, a, *extra)
            b.fine(['C30'], 'memory read', raised)
            one_call(b, ['C30'], 'memory read is forwarded', d, 'read_memory', (av, size), 1)
            b.odd(d)
            b.is_bs(['C30'], 'memory read value', r, size, d.memory(av, size), live)
        for fn, size, extra in (('wmem', 8, (8,)), ('wmem', 16, (16,)), ('wmem', 32, (32,)), ('wmem0', 32, ()), ('w8', 8, ()),
                                ('w16', 16, ()), ('w32', 32, ())):
            for vkind in ('int', 'bits'):
                b.unit = '%s of %d bits, address as %s, value as %s' % (fn, size, akind, vkind)
                b.loc = 'cmdis/model.py:CpuModel.write_memory'
                cpu, d = b.machine()
                a, av = addr()
                if vkind == 'bits':
                    x, v = b.bs('v', size)
                else:
                    x = v = b.sym('v', size)
                r, live, raised = b.h(fn, cpu, a, x, *extra)
                b.fine(['C30'], 'memory write', raised)
                one_call(b, ['C30'], 'memory write is forwarded', d, 'write_memory', (av, v, size), 1)
                b.odd(d)
    # blocks
    b.unit = 'blocks'
    b.loc = 'cmdis/model.py:CpuModel.read_memory_block'
    cpu, d = b.machine()
    a = b.sym('addr', 32)
    r, live, raised = b.h('rblock', cpu, a, 5)
    b.fine(['C30'], 'block read', raised)
    one_call(b, ['C30'], 'block read is forwarded', d, 'read_memory_block', (a, 5), 1)
    items = b.I.nat.iter_items(b.I, r) if isinstance(r, (PByteArray, PBytes, bytes, PList, tuple)) else None
    if type(items) is tuple:
        b.num(['C30'], 'block read data', len(items), 5, live, 'the length')
        for i, x in enumerate(items[:5]):
            b.num(['C30'], 'block read data', x, d.memory(N.add(a, i), 8), live, 'byte %d' % i)
    else:
        b.cmp.never('C30', 'block read data', 1, 1, b.loc, 'the result is a %s' % b.I.nat.type_name(r))
    b.odd(d)
    b.loc = 'cmdis/model.py:CpuModel.write_memory_block'
    cpu, d = b.machine()
    v = b.sym('data', 24)
    bs = [N.from_bits(b.bits(v, 24)[8 * i:8 * i + 8]) for i in range(3)]
    r, live, raised = b.h('wblock', cpu, a, PByteArray(bs, 1))
    b.fine(['C30'], 'block write', raised)
    one_call(b, ['C30'], 'block write is forwarded', d, 'write_memory_block', (a, ANY), 1)
    for g, n, args in d.calls:
        items = b.I.nat.iter_items(b.I, args[1]) if n == 'write_memory_block' else None
        if type(items) is tuple:
            b.num(['C30'], 'block write data', len(items), 3, g, 'the length')
            for i, x in enumerate(items[:3]):
                b.num(['C30'], 'block write data', x, bs[i], g, 'byte %d' % i)
    b.odd(d)
    # no delegate, and a delegate that defines nothing beyond the base class
    saved = b.drv
    for which, what in (('bare', 'no delegate'), ('based', 'the delegate base class')):
        for fn, args in (('rd', ('r3',)), ('rd', (5,)), ('wr', ('r3', 7)), ('wr', (5, b.bs('v', 32)[0])), ('rget', (4,)), ('rset', (4, 1)),
                         ('sget', (4,)), ('sset', (4, 1)), ('g_pc', ()), ('s_pc', (4,)), ('g_sp', ()), ('s_sp', (8,)), ('g_lr', ()),
                         ('s_lr', (8,)), ('g_msp', ()), ('s_msp', (8,)), ('g_psp', ()), ('s_psp', (8,)), ('g_xpsr', ()), ('s_xpsr', (8,)),
                         ('g_control', ()), ('rmem', (0x100, 32)), ('rmem', (0x100, 8)), ('rmem0', (0x100,)), ('wmem', (0x100, 5, 16)),
                         ('wmem0', (0x100, 5)), ('r8', (0x100,)), ('r16', (0x100,)), ('r32', (0x100,)), ('w8', (0x100, 1)),
                         ('w16', (0x100, 1)), ('w32', (0x100, 1)), ('rblock', (0x100, 4)), ('wblock', (0x100, PByteArray([1, 2], 1)))):
            b.unit = '%s with %s' % (fn, what)
            b.loc = 'cmdis/model.py:CpuModel'
            b.drv = MDRV
            c = b.value(which)
            b.drv = saved
            r, live, raised = b.h(fn, c, *args)
            b.fine(['C30'], 'access with %s' % what, raised)


def tasks(prop, tier):
    out = []
    if prop in ('C28', 'C30'):
        out += [(MODULES, 'model', ('name', n, i)) for n, i in sorted(NAMES.items())]
        out += [(MODULES, 'model', ('view', '', 0)), (MODULES, 'model', ('derived', '', 0))]
    if prop in ('C29', 'C30'):
        out += [(MODULES, 'model', ('flag', f, 0)) for f in 'nzcv']
    if prop == 'C29':
        out += [(MODULES, 'model', ('flags', f, 0)) for f in 'nzcv']
    if prop == 'C28':
        out += [(MODULES, 'model', ('changes', '', i)) for i in sorted(set(NAMES.values()))]
    if prop == 'C30':
        out += [(MODULES, 'model', ('memory', '', 0))]
    return out


def run(S, args, props):
    rep = Report()
    g, n, i = args
    b = Model(S, rep, '%s %s' % (g, n), props)
    try:
        if g == 'name':
            t_name(b, n, i)
        elif g == 'view':
            t_view(b)
        elif g == 'derived':
            t_derived(b)
        elif g == 'flags':
            t_flags(b, n)
        elif g == 'changes':
            t_changes(b, i)
        elif g == 'flag':
            t_flag(b, n)
        else:
            t_memory(b)
    except Unsupported as e:
        rep.undecided(None, g, b.unit, 'not representable: %s' % e)
    rep.touch(S.I)
    return rep
