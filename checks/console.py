"""Interactive console: C36 (dispatch), C37 (memory commands), C44 (argument values), C45 (start and reset),
C46 (step and disassembly), C47 (registers), C51 (lines, expressions and options).

The whole program is interpreted abstractly from its entry point: the lines typed, the binary file and the machine state
are the inputs, the printed text and the final state of the simulated machine the outputs."""
import ast
from absint.num import SI, SB, Unsupported
from absint.values import *
from absint import text as T
from absint.load import Loader
from .report import Report
from .bits import Bits
from .model import NAMES

MODULES = ('cmdis', 'cmdis.bitstring', 'cmdis.model', 'cmdis.mock_cpu', 'cmdis.__main__')
CDRV = 'driver_console'
CSRC = '''
import cmdis.__main__ as main
import cmdis.disasm
import cmdis.decoder
import cmdis.formatter
from cmdis.model import CpuModel
from cmdis.mock_cpu import MockCpuModelDelegate as M
caught = []
saved = {}
hits = []
def hit(): return len(hits)
def nohit(): del hits[:]
first_init = M.__init__
def init(self, *a, **k):
    first_init(self, *a, **k)
    caught.append(self)
def hook(): M.__init__ = init
class File(object):
    def __init__(self, data): self.data = data
    def read(self, *a): return self.data
    def close(self): pass
def file(data): return None if data is None else File(data)
def go(): main.main()
def reg(i):
    c = CpuModel()
    c.delegate = caught[-1]
    return c.read_register(i).unsigned
def block(a, n): return list(caught[-1].read_memory_block(a, n))
def regions(): return [(x.start, x.end, len(x.data)) for x in caught[-1]._mem]
class Custom(Exception): pass
EXC = {'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError, 'IndexError': IndexError, 'RuntimeError': RuntimeError,
       'AttributeError': AttributeError, 'AssertionError': AssertionError, 'ZeroDivisionError': ZeroDivisionError,
       'Custom': Custom, 'KeyboardInterrupt': KeyboardInterrupt, 'NotImplementedError': NotImplementedError, 'EOFError': EOFError,
       'StopIteration': StopIteration}
def boom(e):
    def f(*a, **k):
        hits.append(1)
        raise EXC[e]('boom')
    return f
def fault(e):
    f = boom(e)
    saved['rr'], saved['wr'], saved['rm'], saved['wm'], saved['rb'], saved['wb'] = (M.read_register, M.write_register, M.read_memory,
        M.write_memory, M.read_memory_block, M.write_memory_block)
    M.read_register = M.write_register = M.read_memory = M.write_memory = M.read_memory_block = M.write_memory_block = f
def mend():
    M.read_register, M.write_register, M.read_memory, M.write_memory, M.read_memory_block, M.write_memory_block = (
        saved['rr'], saved['wr'], saved['rm'], saved['wm'], saved['rb'], saved['wb'])
def record(log):
    M.read_memory = lambda self, addr, size=32: log.read_memory(addr, size)
    M.write_memory = lambda self, addr, value, size=32: log.write_memory(addr, value, size)
    M.read_memory_block = lambda self, addr, length: log.read_memory_block(addr, length)
    M.write_memory_block = lambda self, addr, data: log.write_memory_block(addr, data)
def ref_step(pc, n):
    c = CpuModel()
    c.delegate = caught[-1]
    code = c.delegate.read_memory_block(pc, n)
    i = next(iter(cmdis.disasm.Disassembler().disasm(code, pc)))
    t = cmdis.formatter.Formatter(c).format(i)
    i.execute(c)
    return t
def ref_list(pc, n):
    c = CpuModel()
    c.delegate = caught[-1]
    code = c.delegate.read_memory_block(pc, n)
    f = cmdis.formatter.Formatter(c)
    return [(i.address, f.format(i)) for i in cmdis.disasm.Disassembler().disasm(code, pc)]
'''
IDX = dict(NAMES)
ALLREGS = sorted(set(IDX.values()))
RAM = 0x1fff8000
FLASH = 0x10000
BACK = 0x80          # bytes of the binary


class Log(NativeObj):
    """Memory as a guarded log of byte writes at any address, over unknown initial content."""

    def __init__(self, I):
        self.I = I
        self.log = []
        self.version = 0

    def byte(self, addr):
        I, m, N = self.I, self.I.m, self.I.N
        key = ('B',) + tuple(N.bits(addr, 34)) if type(addr) is SI else addr
        v = N.from_bits([m.atom(('cell', key, k), 5, k) for k in range(8)])
        for g, a, x in self.log:
            v = N.ite(m.and_(g, N.eq(a, addr)), x, v)
        return v

    def p_read_memory(self, I, args, kw):
        n = args[1]
        bits = []
        for k in range(n // 8):
            bits += I.N.bits(self.byte(I.N.add(args[0], k)), 8)
        return I.N.from_bits(bits)

    def p_read_memory_block(self, I, args, kw):
        if type(args[1]) is SI:
            raise Unsupported('block of symbolic length')
        return PByteArray([self.byte(I.N.add(args[0], k)) for k in range(args[1])], I.pc)

    def p_write_memory(self, I, args, kw):
        a, v, n = args
        bits = I.N.bits(v, n)
        for k in range(n // 8):
            self.log.append((I.pc, I.N.add(a, k), I.N.from_bits(bits[8 * k:8 * k + 8])))

    def p_write_memory_block(self, I, args, kw):
        items = I.nat.iter_items(I, args[1])
        if type(items) is not tuple:
            raise Unsupported('block of unknown length')
        for k, x in enumerate(items):
            self.log.append((I.pc, I.N.add(args[0], k), x))


class Split(Unsupported):
    """What is printed depends on the state: decide the cases one by one."""

    def __init__(self, what, g):
        Unsupported.__init__(self, what)
        self.g = g


class Console(Bits):
    def __init__(self, S, rep, unit, only):
        S.driver(CDRV, CSRC)
        Bits.__init__(self, S, rep, unit, only)
        self.loc = 'cmdis/__main__.py:SimConsole'
        self.v('hook')
        self.mark = self.I.jmark()

    def h(self, fn, *args):
        saved, self.drv = self.drv, CDRV
        try:
            return self.run(fn, *args)
        finally:
            self.drv = saved

    def v(self, fn, *args):
        r, live, raised = self.h(fn, *args)
        if live != self.care:
            raise Unsupported('setup %s fails' % fn)
        return r

    def do(self, fn, *args):
        """A script item: something that happens in the environment before the next line is typed."""
        def f():
            I = self.I
            I.call(self.S.get(CDRV, fn), list(args), {})
        return f

    def binary(self, pc=0x41, sp=0x20000000, n=BACK, name='m'):
        """A binary with this vector table and unknown content."""
        items = [(sp >> 8 * k) & 255 for k in range(4)] if type(sp) is int else [self.N.from_bits(self.bits(sp, 32)[8 * k:8 * k + 8]) for k in range(4)]
        items += [(pc >> 8 * k) & 255 for k in range(4)] if type(pc) is int else [self.N.from_bits(self.bits(pc, 32)[8 * k:8 * k + 8]) for k in range(4)]
        for i in range(8, n):
            items.append(self.S.sym('%s%02x' % (name, i), 8))
        return items[:n]

    def session(self, data, lines, opts=None):
        """Runs the program on these lines; returns the texts printed: [at start, after line 1, ...]."""
        I = self.I
        I.revert(self.mark)         # every session is a new process
        if data is not None and not isinstance(data, bytes):
            data = bytes(data) if all(type(x) is int for x in data) else PBytes(data)
        I.cli = (opts or {}, self.v('file', data))
        I.script = list(lines)
        I.marks = []
        I.out = []
        I.levels = []
        r, self.live, self.raised = self.h('go')
        marks = I.marks + [len(I.out)]
        out = I.out
        segs = [out[:marks[0]]]
        segs += [out[marks[i]:marks[i + 1]] for i in range(len(marks) - 1)]
        self.read = len(I.marks)
        if self.read > sum(1 for x in lines if not callable(x) or x is KeyboardInterrupt):
            segs.pop()          # what is printed at the end of the input
        return segs

    def ended(self, props, rule, code=0):
        """The program ended by leaving through its exit with this code."""
        m = self.m
        self.loc = 'cmdis/__main__.py:main'
        for p in props:
            self.cmp.raises(p, rule, self.raised, self.care, ('SystemExit',))
        g = 0
        for x in self.raised:
            if x.name == 'SystemExit':
                g = m.or_(g, x.guard)
                c = x.exc.d.get('args', (None,))[0]
                if c not in (code, None if code == 0 else code):
                    for p in props:
                        self.cmp.never(p, rule, x.guard, self.care, self.loc, 'the exit code is %s' % (c,))

    def say(self, seg, care=None):
        """Text of a piece of output."""
        m, care = self.m, self.care if care is None else care
        out = []
        for g, ts, sep, end in seg:
            if m.and_(g, care) == 0:
                continue
            if not m.implies(care, g):
                raise Split('conditional output', g)
            for i, t in enumerate(ts):
                if i:
                    out.append(sep)
                t = self.I.read(t, care)[0]
                if type(t) is Choice:
                    raise Split('output text depends on the state', t.alts[0][0])
                out.append(t)
            out.append(end)
        return T.concat(out)

    def split(self, fn, depth=4):
        """Run fn, case by case where what is printed depends on the state."""
        whole, unit = self.care, self.unit
        try:
            fn()
        except Split as e:
            self.care = whole
            parts = [self.m.and_(whole, e.g), self.m.and_(whole, self.m.not_(e.g))]
            if depth == 0 or 0 in parts:
                raise
            for self.care in parts:
                self.unit, self.I.pc = unit, self.care
                self.split(fn, depth - 1)
        finally:
            self.care = self.I.pc = whole

    def cases(self, seg, limit=32):
        """Split the care set so that every piece of output has one text in each part."""
        parts = [self.care]
        for g, ts, sep, end in seg:
            for t in ts:
                new = []
                for c in parts:
                    v = self.I.read(t, c)[0]
                    if type(v) is Choice:
                        new += [x for x in (self.m.and_(c, a) for a, _ in v.alts) if x]
                    else:
                        new.append(c)
                parts = new
                if len(parts) > limit:
                    raise Unsupported('output text depends on the state')
        return parts

    def lines(self, seg, care=None):
        """Output as lines of white-space separated tokens."""
        out, tok = [[]], []

        def flush():
            if tok:
                out[-1].append(T.norm(tok))
                del tok[:]
        for p in T.parts_of(self.say(seg, care)):
            if not isinstance(p, str):
                tok.append(p)
                continue
            for ch in p:
                if ch == '\n':
                    flush()
                    out.append([])
                elif ch in ' \t\r':
                    flush()
                else:
                    tok.append(ch)
        flush()
        return [x for x in out if x]

    def hex(self, v, n):
        return T.from_int(self.I, v, '0%dx' % n)

    def arg(self, v, n=8):
        """An argument word that spells v."""
        if type(v) is int:
            return ('-' if v < 0 else '') + '0x%x' % abs(v)
        return T.concat(['0x', self.hex(v, n)])

    def line(self, *ws):
        out = []
        for i, w in enumerate(ws):
            if i:
                out.append(' ')
            out.append(w if isinstance(w, (str, AStr)) else self.arg(w))
        return T.concat(out)

    def regs(self):
        return dict((i, self.v('reg', i)) for i in ALLREGS)

    def block(self, a, n):
        r = self.v('block', a, n)
        its = self.I.nat.iter_items(self.I, r)
        if type(its) is not tuple:
            raise Unsupported('memory of unknown length')
        return its

    def same_regs(self, props, rule, got, want):
        for i in ALLREGS:
            if i in want:
                name = [n for n in sorted(IDX) if IDX[n] == i][-1]
                self.num(props, rule, got[i], want[i], None, name)

    def same_bytes(self, props, rule, got, want, at):
        if len(got) != len(want):
            self.num(props, rule, len(got), len(want), None, 'the number of bytes')
            return
        n = 0
        for k, (x, y) in enumerate(zip(got, want)):
            if x is y or type(x) is int and type(y) is int and x == y:
                n += 1
                continue
            self.num(props, rule, x, y, None, 'the byte at %#x' % (at + k))
        if n:
            for p in props:
                if self.wants(p):
                    self.rep.good(p, rule)

    def quiet(self, props, rule, seg, allow=()):
        """Nothing printed by a command looks like a failure."""
        for l in self.lines(seg):
            if isinstance(l[0], str) and (l[0].startswith('Error') or l[0] == 'Unexpected' or l[0] == 'Exception') and not allow:
                for p in props:
                    if self.wants(p):
                        self.rep.violation(p, rule, self.unit, 'reports %r' % ' '.join(str(w) for w in l), self.loc, {'line': self.unit})
                return False
        for p in props:
            if self.wants(p):
                self.rep.good(p, rule)
        return True

    def failed(self, seg):
        ls = self.lines(seg)
        return bool(ls) and isinstance(ls[0][0], str) and (ls[0][0].startswith('Error') or ls[0][0] == 'Unexpected')

    def is_text(self, props, rule, got, want):
        self.text(props, rule, got, want)

    def expect(self, props, rule, ok, what):
        for p in props:
            if self.wants(p):
                if ok:
                    self.rep.good(p, rule)
                else:
                    self.rep.violation(p, rule, self.unit, what, self.loc, {'line': self.unit})


def le(b, v, n):
    if type(v) is int:
        return [(v >> 8 * k) & 255 for k in range(n)]
    bits = b.bits(v, 8 * n)
    return [b.N.from_bits(bits[8 * k:8 * k + 8]) for k in range(n)]


GROUPS = {'read8': 8, 'read16': 16, 'read32': 32, 'write8': 8, 'write16': 16, 'write32': 32}


# ------------------------------------------------------------------ C37
def t_write(b, name, w, addr, nvals, how, props):
    """One write command, checked on all memory."""
    n = w // 8
    data = b.binary()
    vals = [b.sym('v%d' % i, 32) for i in range(nvals)]
    words, want, pre = [], [], []
    for i, v in enumerate(vals):
        h = (how + i) % 6
        if h in (0, 1):
            words.append(b.arg(v))
        elif h == 2:
            words.append('r%d' % (i + 2))
            pre.append(b.line('wreg', 'r%d' % (i + 2), v))
        elif h == 3:
            v = (1 << w) - 1 - i
            words.append(str(v))
        elif h == 4:
            v = -1 - i
            words.append(str(v))
        else:
            v = (1 << w) + 0x5a + i
            words.append(hex(v))
        want.append(v)
    b.unit = '%s of %d values at %#x (%d)' % (name, nvals, addr, how)
    b.loc = 'cmdis/__main__.py:SimTool.do_write'
    segs = b.session(data, pre + [b.line(name, addr, *words)])
    b.ended(props, 'write command')
    b.loc = 'cmdis/__main__.py:SimTool.do_write'
    b.quiet(props, 'a valid write is not refused', segs[1 + len(pre)])
    flash = list(data) + [0] * (FLASH - len(data))
    ram = [0] * 0x10000
    at = addr
    for v in want:
        for x in le(b, v, n):
            if 0 <= at < FLASH:
                flash[at] = x
            elif RAM <= at < RAM + 0x10000:
                ram[at - RAM] = x
            at += 1
    rule = 'a write stores each value as one little-endian item, and nothing else'
    b.same_bytes(props, rule, b.block(0, FLASH), flash, 0)
    b.same_bytes(props, rule, b.block(RAM, 0x10000), ram, RAM)


def t_write_any(b, name, w, nvals, how, props):
    """One write command at any address, on a recording memory."""
    n = w // 8
    log = Log(b.I)
    addr = b.sym('addr', 32)
    vals = [b.sym('v%d' % i, 32) for i in range(nvals)]
    b.unit = '%s of %d values at any address (%s)' % (name, nvals, how)
    if how == 'hex':
        script = [b.do('record', log), b.line(name, b.arg(addr), *vals)]
    else:
        script = [b.line('wreg', 'r7', addr), b.do('record', log), b.line(name, 'r7', *vals)]
    segs = b.session(b.binary(), script)
    b.ended(props, 'write command')
    b.loc = 'cmdis/__main__.py:SimTool.do_write'
    want = [x for v in vals for x in le(b, v, n)]
    rule = 'a write stores each value as one little-endian item, and nothing else'
    # the bytes written, wherever they come from
    ref = Log(b.I)
    for k, x in enumerate(want):
        ref.log.append((1, b.N.add(addr, k), x))
    for k in range(-4, len(want) + 4):
        a = b.N.add(addr, k)
        b.num(props, rule, log.byte(a), ref.byte(a), None, 'the byte at address%+d' % k)
    for g, a, x in log.log:
        inside = b.m.any_([b.N.eq(a, b.N.add(addr, k)) for k in range(len(want))])
        for p in props:
            b.cmp.never(p, rule, b.m.and_(g, b.m.not_(inside)), b.care, b.loc, 'a byte outside of the given range is written')


def t_read(b, name, w, addr, length, how, props):
    """One read command over unknown memory."""
    n = w // 8
    data = b.binary()
    b.unit = '%s at %#x length %s (%s)' % (name, addr, length, how)
    b.loc = 'cmdis/__main__.py:SimTool.do_read'
    words = [name]
    pre = []
    if how == 'reg':
        pre.append(b.line('wreg', 'r9', addr))
        words.append('r9')
    else:
        words.append({'hex': hex(addr), 'dec': str(addr), 'bin': bin(addr), 'HEX': '0X%X' % addr}[how])
    if length is not None:
        words.append(hex(length) if how == 'hex' else str(length))
    segs = b.session(data, pre + [' '.join(words)])
    b.ended(props, 'read command')
    b.loc = 'cmdis/__main__.py:SimTool.do_read'
    if not b.quiet(props, 'a valid read is not refused', segs[1 + len(pre)]):
        return
    ls = b.lines(segs[1 + len(pre)])
    if how == 'reg':
        ls = ls[1:]         # the register's value is shown first
    flash = list(data) + [0] * 256
    total = n if length is None else length
    check_dump(b, props, ls, addr, flash[addr:addr + total], n)
    b.same_bytes(props, 'a read changes no memory', b.block(0, 256), flash[:256], 0)


def check_dump(b, props, ls, addr, data, n):
    items = []
    for k in range(0, len(data) - n + 1, n):
        bits = []
        for x in data[k:k + n]:
            bits += b.bits(x, 8)
        items.append(b.N.from_bits(bits))
    k = 0
    for l in ls:
        lab = T.concat([b.hex(b.N.add(addr, k * n), 8), ':'])
        b.is_text(props, 'each line is labelled with the address of its first item', l[0], lab)
        for t in l[1:]:
            if k < len(items):
                b.is_text(props, 'a read displays the addressed items in order', t, b.hex(items[k], 2 * n))
            k += 1
    b.num(props, 'a read displays the addressed items in order', k, len(items), None, 'the number of items displayed')


def t_read_any(b, name, w, count, how, props):
    n = w // 8
    log = Log(b.I)
    addr = b.sym('addr', 31)
    b.unit = '%s of %d items at any address (%s)' % (name, count, how)
    if how == 'hex':
        script = [b.do('record', log), b.line(name, b.arg(addr), str(count * n))]
    else:
        script = [b.line('wreg', 'r7', addr), b.do('record', log), b.line(name, 'r7', str(count * n))]
    segs = b.session(b.binary(), script)
    b.ended(props, 'read command')
    b.loc = 'cmdis/__main__.py:SimTool.do_read'
    ls = b.lines(segs[-1])
    if how == 'reg':
        ls = ls[1:]
    check_dump(b, props, ls, addr, [log.byte(b.N.add(addr, k)) for k in range(count * n)], n)
    b.expect(props, 'a read changes no memory', not log.log, 'a read command writes memory')


# ------------------------------------------------------------------ C44
def t_value(b, form, props):
    """The value an argument denotes, seen through wreg."""
    N = b.N
    b.loc = 'cmdis/__main__.py:SimTool.convert_value'
    data = b.binary()
    pre = []
    if form == 'hex':
        v = b.sym('v', 32)
        w, want = b.arg(v), v
    elif form == 'short hex':
        v = b.sym('v', 12)
        w, want = T.concat(['0x', b.hex(v, 3)]), v
    elif form == 'upper hex':
        v = b.sym('v', 32)
        w, want = T.concat(['0X', T.from_int(b.I, v, '08X')]), v
    elif form == 'underscores':
        v = b.sym('v', 32)
        w = T.concat(['0x', b.hex(N.from_bits(b.bits(v, 32)[16:]), 4), '_', b.hex(N.from_bits(b.bits(v, 32)[:16]), 4)])
        want = v
    elif form == 'binary':
        v = b.sym('v', 20)
        w, want = T.concat(['0b', b.bintext(v, 20)]), v
    elif form == 'octal':
        v = b.sym('v', 12)
        w, want = T.concat(['0o'] + [b.hex(b.N.from_bits(b.bits(v, 12)[k:k + 3]), 1) for k in (9, 6, 3, 0)]), v
    elif form.startswith('lit '):
        w = form[4:]
        want = int(w.replace('_', ''), 0) & 0xffffffff
    elif form.startswith('reg '):
        r = form[4:]
        v = b.sym('v', 32)
        if IDX[r.lower()] == IDX['sp']:
            v = N.sub(v, N.mod2(v, 2))
        pre = [b.line('wreg', r.lower(), b.arg(v))]
        w, want = r, v
    elif form.startswith('mem ') and form != 'mem any':
        # [base,offset] with a literal or register base
        _, base, off, style = form.split(' ')
        base, off = int(base, 0), int(off, 0)
        if style == 'reg':
            pre = [b.line('wreg', 'r9', base)]
            t = 'r9'
        elif style == 'REG':
            pre = [b.line('wreg', 'r9', base)]
            t = 'R9'
        elif style == 'dec':
            t = str(base)
        else:
            t = hex(base)
        w = '[%s]' % t if style == 'none' or (off == 0 and style != 'zero') else '[%s,%s]' % (t, off if style != 'hexoff' else hex(off))
        at = base + off
        bits = []
        for x in (list(data) + [0] * 64)[at:at + 4]:
            bits += b.bits(x, 8)
        want = N.from_bits(bits)
    elif form == 'mem any':
        log = Log(b.I)
        a = b.sym('addr', 32)
        pre = [b.line('wreg', 'r9', b.arg(a)), b.do('record', log)]
        w = '[r9,8]'
        want = N.from_bits([x for k in range(4) for x in b.bits(log.byte(N.add(a, 8 + k)), 8)])
    b.unit = 'argument %s' % form
    segs = b.session(data, pre + [b.line('wreg', 'r4', w)])
    b.ended(props, 'argument value')
    b.loc = 'cmdis/__main__.py:SimTool.convert_value'
    b.quiet(props, 'a valid argument is not refused', segs[-1])
    b.num(props, 'an argument denotes the number, register or memory word it spells', b.v('reg', 4), want, None, 'the value of the argument')


BADVALUES = ('zork', '0x', '0xg', '1.5', '12a', 'r16', 'r', '[', '[]', '[zork]', '[r0,]', '[r0,zork]', '[1,2,3]', '0b2', '--1', '_', '__', '08x')


def t_badvalue(b, w, props):
    b.unit = 'argument %s' % w
    segs = b.session(b.binary(), ['wreg r4 77', 'wreg r4 ' + w, 'wreg r5 6'])
    b.ended(props, 'argument value')
    b.loc = 'cmdis/__main__.py:SimTool.convert_value'
    b.expect(props, 'an argument that spells nothing is refused', b.failed(segs[2]), 'the argument %s is accepted' % w)
    b.num(props, 'an argument that spells nothing is refused', b.v('reg', 4), 77, None, 'the register written')
    b.num(props, 'the console goes on after an error', b.v('reg', 5), 6, None, 'the register written next')


# ------------------------------------------------------------------ C47
def t_reg(b, name, props):
    v = b.sym('v', 32)
    i = IDX[name]
    b.unit = 'register %s' % name
    b.loc = 'cmdis/__main__.py:SimTool.handle_reg'
    others = {}
    pre = []
    for k in range(16):
        if k not in (13, 15) and k != i:
            others[k] = b.sym('o%d' % k, 32)
            pre.append(b.line('wreg', 'r%d' % k, b.arg(others[k])))
    segs = b.session(b.binary(), pre + [b.line('wreg', name, b.arg(v)), 'reg ' + name, name, name.upper(), 'reg ' + name.upper()])
    b.ended(props, 'register commands')
    got = b.v('reg', i)
    want = v
    if i in (IDX['sp'], IDX['msp'], IDX['psp']):
        want = b.N.sub(v, b.N.mod2(v, 2))
    elif i in (IDX['primask'], IDX['faultmask']):
        want = b.N.mod2(v, 1)
    elif i == IDX['basepri']:
        want = b.N.mod2(v, 8)
    b.loc = 'cmdis/__main__.py:SimTool.handle_write_reg'
    b.num(props, 'wreg writes the value to the named register', got, want, None, name)
    for k in sorted(others):
        b.num(props, 'wreg writes no other register', b.v('reg', k), others[k], None, 'r%d' % k)
    b.loc = 'cmdis/__main__.py:SimTool.handle_reg'
    for s in segs[1 + len(pre) + 1:]:
        ls = b.lines(s)
        if len(ls) != 1:
            b.expect(props, 'a register is shown with its value', False, 'prints %d lines' % len(ls))
            continue
        b.is_text(props, 'a register is shown with its value', joined(ls[0]),
                  T.concat([name, ' = 0x', b.hex(want, 8), ' (', T.from_int(b.I, want, 'd'), ')']))


def joined(l):
    out = []
    for i, w in enumerate(l):
        if i:
            out.append(' ')
        out.append(w)
    return T.concat(out)


def t_regs(b, _, props):
    """The register dump shows each register's own value."""
    b.unit = 'register dump'
    data = b.binary()
    vals = {}
    pre = []
    names = ['r%d' % k for k in range(13)] + ['lr', 'pc', 'xpsr', 'psp', 'control', 'primask', 'faultmask', 'basepri', 'msp']
    for n in names:
        w = {'primask': 1, 'faultmask': 1, 'basepri': 8}.get(n, 32)
        v = b.sym('v_' + n, w)
        if n in ('psp', 'msp'):
            v = b.N.sub(v, b.N.mod2(v, 2))
        vals[n] = v
        pre.append(b.line('wreg', n, T.concat(['0x', b.hex(v, 8)])))
    before = None
    segs = b.session(data, pre + ['reg'])
    b.ended(props, 'register dump')
    b.loc = 'cmdis/__main__.py:SimTool.dump_registers'
    toks = [w for l in b.lines(segs[-1]) for w in l]
    vals['sp'] = b.N.ite(b.bits(vals['control'], 2)[1], vals['psp'], vals['msp'])
    seen = set()
    rule = 'the register dump shows each register next to its name'
    b.expect(props, rule, len(toks) % 2 == 0, 'the dump is not a list of names and values')
    for k in range(0, len(toks) - 1, 2):
        n = toks[k]
        n = n[:-1] if isinstance(n, str) and n.endswith(':') else n
        b.expect(props, rule, n in vals and n not in seen, 'the dump shows %s' % (n,))
        if n in vals:
            seen.add(n)
            b.is_text(props, rule, toks[k + 1], T.concat(['0x', b.hex(vals[n], 8)]))
    b.expect(props, 'the register dump shows all registers', seen == set(vals), 'the dump does not show %s' % ', '.join(sorted(set(vals) - seen)))


def t_noreg(b, w, props):
    b.unit = 'register name %s' % w
    data = b.binary()
    b.session(data, [])
    before = b.regs()
    segs = b.session(data, ['reg ' + w, 'wreg %s 5' % w, 'wreg r0', 'wreg'])
    b.ended(props, 'register commands')
    b.loc = 'cmdis/__main__.py:SimTool.handle_write_reg'
    for k, what in ((1, 'reg'), (2, 'wreg'), (3, 'wreg without a value'), (4, 'wreg without a register')):
        b.expect(props, 'an unknown register is refused', b.failed(segs[k]), '%s accepts %s' % (what, w))
    b.same_regs(props, 'a refused command changes nothing', b.regs(), before)


# ------------------------------------------------------------------ C45
def t_start(b, what, props):
    n, sp, pc = what
    b.unit = 'start with a binary of %d bytes, SP %#x, PC %s' % (n, sp, pc if pc is None else hex(pc))
    b.loc = 'cmdis/__main__.py:SimTool.create_sim'
    v = b.sym('pc', 32) if pc is None else pc
    data = b.binary(v, sp, min(n, BACK))
    if n > len(data):
        data = data + [(7 * k + 3) & 255 for k in range(len(data), n)]
    segs = b.session(data if n else None, [])
    b.ended(props, 'start')
    b.loc = 'cmdis/__main__.py:SimTool.create_sim'
    size = max(FLASH, n)
    flash = list(data) + [0] * (size - n)
    b.same_bytes(props, 'the binary is at address 0', b.block(0, size), flash, 0)
    word = lambda o: b.N.from_bits([x for k in range(4) for x in b.bits(flash[o + k], 8)])
    spv, pcv = word(0), word(4)
    if type(spv) is int and spv > RAM:
        got = b.block(spv - 4, 4)
        b.same_bytes(props, 'the RAM includes the initial stack', got, [0] * 4, spv - 4)
    ramsize = max(spv - RAM, 0x10000) if spv else 0x10000
    mapped(b, props, spv, pcv, [(0, size), (RAM, ramsize)], {})


def mapped(b, props, spv, pcv, regions, before):
    N, m = b.N, b.m

    def inside(a):
        return m.any_([m.and_(m.not_(N.lt(a, s)), N.lt(a, s + n)) for s, n in regions])
    b.loc = 'cmdis/__main__.py:SimTool.reset_sim'
    got = b.v('reg', 15)
    want = N.ite(inside(pcv), pcv, before.get(15, 0))
    # whether bit 0 of the vector (the Thumb bit) is kept is not constrained
    b.num(props, 'reset loads PC from the vector table', N.sub(got, N.mod2(got, 1)), N.sub(want, N.mod2(want, 1)), None, 'PC')
    al = N.sub(spv, N.mod2(spv, 2))
    want = N.ite(inside(N.sub(spv, 4)), al, before.get(13, 0))
    b.num(props, 'reset loads SP from the vector table', b.v('reg', 13), want, None, 'SP')
    for i in ALLREGS:
        if i not in (13, 15, 17, 16) and i in before or i in (0, 5, 12, 14, 18, -4):
            b.num(props, 'reset changes no other register', b.v('reg', i), before.get(i, 0), None, 'register %d' % i)


def t_reset(b, how, props):
    """The reset command after any program has run."""
    b.unit = 'reset (%s)' % how
    data = b.binary()
    sp, pc = b.sym('sp', 32), b.sym('pc', 32)
    if how == 'pc':
        sp = 0x20000400
    elif how == 'sp':
        pc = 0x61
    regs = {}
    pre = []
    for k in list(range(13)) + [14, 15]:
        regs[k] = b.sym('r%d' % k, 32)
        pre.append(b.line('wreg', {14: 'lr', 15: 'pc'}.get(k, 'r%d' % k), b.arg(regs[k])))
    osp = b.sym('osp', 32)
    osp = b.N.sub(osp, b.N.mod2(osp, 2))
    pre.append(b.line('wreg', 'sp', b.arg(osp)))
    regs[13] = osp
    segs = b.session(data, pre + [b.line('ww', '0', b.arg(sp)), b.line('ww', '4', b.arg(pc)), 'reset'])
    b.ended(props, 'reset')
    mapped(b, props, sp, pc, [(0, FLASH), (RAM, 0x10000)], regs)
    flash = le(b, sp, 4) + le(b, pc, 4) + list(data)[8:]
    b.same_bytes(props, 'reset keeps memory', b.block(0, len(flash)), flash, 0)


# ------------------------------------------------------------------ C46
CODE = (  # (halfwords, registers to set)
    ((0xbf00,), {}), ((0x3001,), {0: None}), ((0x1888,), {1: None, 2: None}), ((0x4248,), {1: None}), ((0x2a05,), {2: None}),
    ((0xd0fe,), {}), ((0xd103,), {}), ((0xe7f0,), {}), ((0x4770,), {14: 0x51}), ((0x4798,), {3: 0x60}), ((0xb401,), {0: None}),
    ((0xbc02,), {}), ((0x6048,), {0: None, 1: 0x20000010}), ((0x6848,), {1: 0x20}), ((0x7048,), {0: None, 1: 0x60}), ((0x4805,), {}),
    ((0xa103,), {}), ((0xf000, 0xf802), {}), ((0xf04f, 0x0207), {}), ((0xf241, 0x2334), {}),
    ((0xe92d, 0x4010), {4: None, 14: None}), ((0xb672,), {}), ((0xf3ef, 0x8010), {}), ((0x43c8,), {1: None}),
    ((0x0048,), {1: None}), ((0xb2c8,), {1: None}), ((0xba08,), {1: None}), ((0x4348,), {0: None, 1: None}), ((0xdf05,), {}), ((0xbe01,), {}),
)
REFUSED = ((0xffff, 0xffff), (0xb400,), (0xbc00,), (0xec00, 0x0000), (0xfc00, 0x0000))


def t_step(b, which, props):
    hw, regs, thumb, at, tail = which
    b.unit = 'step %s at %#x%s' % (' '.join('%04x' % x for x in hw), at, '' if tail else ', end of memory')
    b.loc = 'cmdis/__main__.py:SimTool.handle_step'
    code = [x for h in hw for x in (h & 255, h >> 8)]
    data = b.binary(at | thumb, n=BACK)
    if tail:
        data[at:at + len(code)] = code
    else:
        data = data + [0] * (at - len(data)) + code
    pre = []
    for r, v in sorted(regs.items()):
        if v is None:
            v = b.sym('r%d' % r, 32)
        pre.append(b.line('wreg', 'lr' if r == 14 else 'r%d' % r, b.arg(v)))
    if not (0xd000 <= hw[0] < 0xde00):
        x = b.sym('psr', 4)
        pre.append(b.line('wreg', 'xpsr', T.concat(['0x', b.hex(x, 1), '1000000'])))
    # the reference: the same state, the instruction at PC executed directly
    b.session(data, pre)
    r, live, raised = b.h('ref_step', at, min(4, FLASH - at))
    if live != b.care:
        raise Unsupported('the reference step fails')
    want, wmem, wram = b.regs(), b.block(0, 0x100), b.block(0x1ffffff0, 0x40)
    segs = b.session(data, pre + ['s'])
    b.ended(props, 'step')
    b.loc = 'cmdis/__main__.py:SimTool.handle_step'
    rule = 'step executes exactly the instruction at PC'
    b.same_regs(props, rule, b.regs(), want)
    b.same_bytes(props, rule, b.block(0, 0x100), wmem, 0)
    b.same_bytes(props, rule, b.block(0x1ffffff0, 0x40), wram, 0x1ffffff0)
    ls = b.lines(segs[-1])
    b.is_text(props, 'step shows the instruction it executes', joined([w for l in ls for w in l]), squash(T.concat(['0x%08x: ' % at, r])))


def squash(t):
    out, sp = [], False
    for p in T.parts_of(t):
        if not isinstance(p, str):
            out.append(p)
            sp = False
            continue
        q = ''
        for ch in p:
            if ch in ' \t\n':
                if not sp:
                    q += ' '
                sp = True
            else:
                q += ch
                sp = False
        out.append(q)
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip(' ')
    return T.norm(out)


def t_norun(b, which, props):
    """An instruction that cannot be decoded, or no memory at PC: reported, nothing changes, the console goes on."""
    hw, at = which
    b.unit = 'step of %s at %#x' % (' '.join('%04x' % x for x in hw) if hw else 'nothing', at)
    b.loc = 'cmdis/__main__.py:SimTool.handle_step'
    data = b.binary(0x41)
    if at < FLASH:
        data += [0] * (at - len(data))
        data[at:at + 2 * len(hw)] = [x for h in hw for x in (h & 255, h >> 8)]
    pre = [b.line('wreg', 'pc', at), b.line('wreg', 'r0', b.arg(b.sym('r0', 32)))]
    b.session(data, pre)
    want, mem = b.regs(), b.block(0, 0x100)
    segs = b.session(data, pre + ['s', 'wreg r5 9'])
    b.ended(props, 'step')
    b.loc = 'cmdis/__main__.py:SimTool.handle_step'
    want[5] = 9
    b.same_regs(props, 'an instruction that cannot be decoded changes nothing', b.regs(), want)
    b.same_bytes(props, 'an instruction that cannot be decoded changes nothing', b.block(0, 0x100), mem, 0)
    b.expect(props, 'an instruction that cannot be decoded is reported', bool(b.lines(segs[3])), 'nothing is printed')


PROGRAM = (0xbf00, 0x3001, 0xf04f, 0x0207, 0x1888, 0xe7f0, 0x4805, 0xb401, 0xf000, 0xf802, 0x4770, 0xbf00, 0x0048, 0x4348, 0xb2c8, 0xba08)


def t_list(b, which, props):
    words, addr, count, pc = which
    b.unit = 'disasm %s, PC %#x' % (' '.join(words), pc)
    data = b.binary(0x41)
    data[0x40:0x60] = [x for h in PROGRAM for x in (h & 255, h >> 8)]
    b.session(data, [])
    r, live, raised = b.h('ref_list', addr, count)
    if live != b.care:
        raise Unsupported('the reference listing fails')
    want = [(t[0], t[1]) for t in b.I.nat.iter_items(b.I, r)]
    b.loc = 'cmdis/__main__.py:SimTool.handle_disasm'
    pre = [b.line('wreg', 'pc', pc), 'wreg r6 0x40']
    b.session(data, pre)
    regs, mem = b.regs(), b.block(0, 0x100)
    segs = b.session(data, pre + [' '.join(words)])
    b.ended(props, 'disasm')
    b.loc = 'cmdis/__main__.py:SimTool.print_disasm'
    b.same_regs(props, 'disasm changes nothing', b.regs(), regs)
    b.same_bytes(props, 'disasm changes nothing', b.block(0, 0x100), mem, 0)
    whole = b.care
    try:
        for b.care in b.cases(segs[-1]):
            listing(b, segs[-1], want, pc, props)
    finally:
        b.care = whole


def listing(b, seg, want, pc, props):
    ls = b.lines(seg)
    ls = [l for l in ls if not (len(l) > 1 and l[1] == '=')]         # values of arguments
    b.num(props, 'disasm lists the instructions in the range', len(ls), len(want), None, 'the number of lines')
    for l, (a, t) in zip(ls, want):
        mark = '*' if (pc & ~1) == a else ''
        b.is_text(props, 'disasm lists the instructions in the range and marks PC', joined(l), squash(T.concat(['0x%08x:%s ' % (a, mark), t])))


def t_listbad(b, which, props):
    """A range with an instruction that cannot be decoded: those before it are listed, it is reported."""
    hw, before = which
    b.unit = 'disasm of %d halfwords before %s' % (before, ' '.join('%04x' % x for x in hw))
    data = b.binary(0x41)
    code = list(PROGRAM[:before]) + list(hw) + [0xbf00] * 6
    data[0x40:0x40 + 2 * len(code)] = [x for h in code for x in (h & 255, h >> 8)]
    want = []
    b.session(data, [])
    if before:
        r, live, raised = b.h('ref_list', 0x40, 2 * before)
        if live != b.care:
            raise Unsupported('the reference listing fails')
        want = [(t[0], t[1]) for t in b.I.nat.iter_items(b.I, r)]
    b.session(data, [])
    regs, mem = b.regs(), b.block(0, 0x100)
    segs = b.session(data, ['disasm 0x40 %d' % (2 * len(code))])
    b.ended(props, 'disasm')
    b.loc = 'cmdis/__main__.py:SimTool.print_disasm'
    b.same_regs(props, 'disasm changes nothing', b.regs(), regs)
    b.same_bytes(props, 'disasm changes nothing', b.block(0, 0x100), mem, 0)
    rule = 'disasm lists the instructions before one that cannot be decoded, and reports that one'
    listed, other = [], 0
    for l in b.lines(segs[-1]):
        if l and isinstance(l[0], str) and l[0][:2] == '0x' and ':' in l[0]:
            listed.append(l)
        elif not (len(l) > 1 and l[1] == '='):
            other += 1
    b.num(props, rule, len(listed), len(want), None, 'the number of instructions listed')
    for l, (a, t) in zip(listed, want):
        b.is_text(props, rule, joined(l), squash(T.concat(['0x%08x:%s ' % (a, '*' if a == 0x40 else ''), t])))
    b.expect(props, rule, other > 0, 'the instruction that cannot be decoded is not reported')


# ------------------------------------------------------------------ C36
def documented(b):
    """Groups of names that the help lists."""
    segs = b.session(b.binary(), ['help'])
    if b.live:
        raise Unsupported('the program does not end')
    out = []
    for g, ts, sep, end in segs[1]:
        for t in ts:
            if not isinstance(t, str):
                raise Unsupported('help text depends on the state')
    text = b.say(segs[1])
    for l in text.split('\n'):
        if not l.strip() or l.startswith('-') or l.startswith('All ') or l.startswith('Any ') or l.strip() == 'Commands:':
            continue
        names, w = [], l.split()
        while w:
            x = w.pop(0)
            names.append(x.rstrip(','))
            if not x.endswith(','):
                break
        out.append(tuple(names))
    return out


PROBES = ((), ('0x20',), ('0x24', '8'), ('0x20', '0x155', '7'), ('r4',), ('r4', '0x24'), ('debug',), ('zork',), ('-c', '0x24'), ('pc', '4'),
          ('0x40', '0x30a', '0x4ff'), ('[0x20]', '4'), ('R4',), ('ERROR',))


def unknown(b, data, w='zzqx'):
    segs = b.session(data, [w])
    return b.say(segs[1])


def t_aliases(b, _, props):
    """All names of a command do the same thing, which is not to be refused."""
    rule = 'all names of a command do the same'
    data = [x if type(x) is int else (i * 5 + 1) & 0x3f for i, x in enumerate(b.binary(0x41))]
    data[0x40:0x48] = [0x01, 0x30, 0x02, 0x31, 0x03, 0x32, 0x00, 0xbf]
    b.unit = 'commands in help'
    groups = documented(b)
    b.expect(props, 'the help lists commands', len(groups) >= 3, 'the help lists no commands')
    flat = [n for g in groups for n in g]
    b.expect(props, 'the help lists each command once', len(flat) == len(set(flat)), 'a command is listed twice')
    no = unknown(b, data)
    known = {'exit', 'quit'}
    for g in groups:
        ref = None
        for n in g:
            b.unit = 'command %s' % n
            b.loc = 'cmdis/__main__.py:SimConsole.process_command'
            if known & set(g):
                segs = b.session(data, ['wreg r3 5', n, 'wreg r3 6'])
                b.ended(props, 'exit ends the console')
                b.num(props, 'exit ends the console', b.v('reg', 3), 5, None, 'r3 (written after exit)')
                continue
            probes = [' '.join((n,) + p) for p in PROBES] + [n.upper()]
            segs = b.session(data, ['wreg r4 0x28', 'wreg pc 0x41'] + probes + ['wreg r3 6'])
            b.ended(props, 'a command does not end the console')
            b.loc = 'cmdis/__main__.py:SimConsole.process_command'
            b.num(props, 'a command does not end the console', b.v('reg', 3), 6, None, 'r3 (written by the next command)')
            if b.read < len(probes) + 3:
                continue
            texts = [b.say(s) for s in segs[3:3 + len(probes)]]
            for p, t in zip(probes, texts):
                w = p.split()[0].lower()
                if no.replace('zzqx', w) == t:
                    b.expect(props, 'a documented command is accepted', False, 'the command %s is refused' % w)
                    break
            else:
                b.expect(props, 'a documented command is accepted', True, '')
            st = (texts, b.regs(), b.block(0, 0x100), list(b.I.levels))
            if ref is None:
                ref = st
                continue
            for p, x, y in zip(probes, texts, ref[0]):
                b.is_text(props, rule, T.concat([x]), y if isinstance(y, AStr) else y)
            b.same_regs(props, rule, st[1], ref[1])
            b.same_bytes(props, rule, st[2], ref[2], 0)
            b.expect(props, rule, [x for g_, x in st[3]] == [x for g_, x in ref[3]], 'sets another log level')


def t_accepted(b, _, props):
    """Nothing else is accepted."""
    data = b.binary()
    groups = documented(b)
    names = set(n for g in groups for n in g)
    _, tree, _ = Loader(b.I.loader.repo)('cmdis.__main__')
    words = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            words.add(n.value)
        elif isinstance(n, ast.Attribute):
            words.add(n.attr)
            words.add(n.attr.replace('handle_', ''))
        elif isinstance(n, ast.FunctionDef):
            words.add(n.name)
    words |= set('abcdefghijklmnopqrstuvwxyz')
    words = sorted(w for w in words if w and len(w.split()) == 1 and w == w.strip() and ';' not in w and not w.startswith('$') and w == w.lower()
                   and w not in names and w not in IDX)
    no = unknown(b, data)
    b.loc = 'cmdis/__main__.py:SimConsole.process_command'
    segs = b.session(data, words)
    if b.read != len(words) + 1:
        b.unit = 'undocumented commands'
        b.expect(props, 'an undocumented command does not end the console', False, 'an undocumented command ends the console')
        return
    for w, s in zip(words, segs[1:]):
        b.unit = 'word %s' % w
        b.expect(props, 'every accepted command is documented', b.say(s) == no.replace('zzqx', w), 'the undocumented command %r is accepted' % w)
    # register names are commands
    for n in sorted(IDX):
        b.unit = 'register name %s' % n
        segs = b.session(data, [n, 'reg ' + n])
        b.is_text(props, 'a register name is a command', b.say(segs[1]), b.say(segs[2]))


WORDS = ('0x20', 'r0', 'zork', '[0x20]', '[r0,4]', '[', '[]', '[1,2,3]', '-1', '-c', '--center', '-z', '%s', '{0}', '_', '99999999999', '08', '$', '?',
         '0x20000000', '0xffffffff', 'debug')


def t_words(b, chunk, props):
    """No list of words ends the console."""
    k, of, depth = chunk
    data = [x if type(x) is int else (5 if i == 0x20 else 0 if i < 0x28 else 13 * i & 255) for i, x in enumerate(b.binary())]
    b.unit = 'commands in help'
    names = [n for g in documented(b) for n in g if n not in ('exit', 'quit')]
    lists = [()] + [(x,) for x in WORDS] + [(x, y) for x in WORDS for y in WORDS]
    if depth > 2:
        lists += [(x, y, z) for x in WORDS[::3] for y in WORDS[::2] for z in WORDS[::2]]
    lists = [w for w in lists if not set(w[1:]) & set(('99999999999', '0xffffffff', '0x20000000', '-1'))]
    for n in names[k::of]:
        b.unit = 'command %s with any words' % n
        b.loc = 'cmdis/__main__.py:SimConsole.process_command'
        ls = lists if depth > 2 else lists[:len(WORDS) + 1] + lists[len(WORDS) + 1::7]
        for i in range(0, len(ls), 60):
            part = [' '.join((n,) + w) for w in ls[i:i + 60]]
            b.session(data, part + ['wreg r3 6'])
            b.ended(props, 'a command does not end the console')
            b.num(props, 'a command does not end the console', b.v('reg', 3), 6, None, 'r3 (written by the next command)')


def t_fault(b, exc, props):
    """A failure inside of any handler is reported and the console goes on."""
    data = [x if type(x) is int else (5 if i == 0x20 else 0 if i < 0x28 else 0xbf * (i & 1)) for i, x in enumerate(b.binary(0x41))]
    b.unit = 'commands in help'
    names = [n for g in documented(b) for n in g if n not in ('exit', 'quit')]
    for n in names:
        for args in ('', ' 0x20', ' r0 4', ' 0x20 8', ' 0x20 1 2'):
            b.unit = '%s inside %s%s' % (exc, n, args)
            b.loc = 'cmdis/__main__.py:SimConsole.process_command'
            b.v('nohit')
            segs = b.session(data, [n + args, b.do('fault', exc), n + args, b.do('mend'), 'wreg r3 6'])
            b.ended(props, 'a failure does not end the console')
            b.num(props, 'a failure does not end the console', b.v('reg', 3), 6, None, 'r3 (written by the next command)')
            if len(segs) > 3:
                b.expect(props, 'a failure is reported', bool(segs[2]) or not b.v('hit'), 'nothing is printed')
    # several commands on one line, an empty line, an interrupt
    b.unit = 'command lines after %s' % exc
    segs = b.session(data, [b.do('fault', exc), 'rb 0x20', b.do('mend'), 'wreg r3 6 ; zork; ;wreg r2 7', KeyboardInterrupt, 'wb 0x20 1;wreg r5 r3', 'wreg r3 8', '', '   ',
                            'wreg r3 [0x24]', '', KeyboardInterrupt, 'wreg r1 1'])
    b.ended(props, 'a failure does not end the console')
    for r, w in ((2, 7), (5, 6), (1, 1)):
        b.num(props, 'each command of a line runs', b.v('reg', r), w, None, 'r%d' % r)
    # an empty line repeats the last line
    segs = b.session(data, ['wreg r3 1', 'wb 0x20 7;wreg r3 9', 'wreg r4 r3', '', 'wreg pc 0x40', '', 'exit'])
    b.num(props, 'the console runs the lines in order', b.v('reg', 4), 9, None, 'r4')
    b.ended(props, 'exit ends the console')


def t_means(b, _, props):
    """Documented commands do what their help says."""
    data = b.binary(0x41)
    groups = documented(b)
    names = set(n for g in groups for n in g)
    # log levels
    if 'log' in names:
        for w, v in (('debug', 10), ('info', 20), ('warning', 30), ('error', 40), ('critical', 50), ('DEBUG', 10)):
            b.unit = 'log ' + w
            b.loc = 'cmdis/__main__.py:SimTool.handle_log'
            b.session(data, [])
            start = [x for g, x in b.I.levels]
            segs = b.session(data, ['log ' + w])
            b.expect(props, 'log sets the level', [x for g, x in b.I.levels] in (start + [v], [v]), 'log %s sets %s' % (w, [x for g, x in b.I.levels]))
            b.quiet(props, 'log sets the level', segs[1])
        for w in ('log', 'log zork'):
            b.unit = w
            b.session(data, [])
            start = [x for g, x in b.I.levels]
            segs = b.session(data, [w])
            b.expect(props, 'log refuses other levels', b.failed(segs[1]) and [x for g, x in b.I.levels] == start, '%s is accepted' % w)
    for n in ('info', 'map', 'help', '?', 'i'):
        if n in names:
            b.unit = n
            b.session(data, [])
            regs, mem = b.regs(), b.block(0, 0x100)
            segs = b.session(data, [n])
            b.quiet(props, 'a query succeeds', segs[1])
            b.same_regs(props, 'a query changes nothing', b.regs(), regs)
            b.same_bytes(props, 'a query changes nothing', b.block(0, 0x100), mem, 0)
    for n, w in sorted(GROUPS.items()):
        for g in groups:
            if n not in g:
                continue
            for x in g:
                if n.startswith('write'):
                    t_write(b, x, w, 0x24, 2, 0, props)
                else:
                    t_read(b, x, w, 0x24, 8, 'hex', props)
    if 'reg' in names:
        t_reg(b, 'r6', props)
    if 'reset' in names:
        t_reset(b, 'pc', props)
    for g in groups:
        if 'step' in g:
            for x in CODE[1:3]:
                t_step(b, (x[0], x[1], 1, 0x40, True), props)
        if 'disasm' in g:
            t_list(b, (('disasm', '0x40', '8'), 0x40, 8, 0x42), props)


# ------------------------------------------------------------------ C51
def t_line(b, which, props):
    """A line of several commands, or a blank line, does what the single commands do one after the other."""
    lines, single = which
    b.unit = 'lines %s' % ' | '.join(repr(x) for x in lines)
    data = [x if type(x) is int else (i * 5 + 1) & 0x3f for i, x in enumerate(b.binary(0x41))]
    data[0x40:0x50] = [0x01, 0x30] * 8
    v = b.sym('v', 32)
    pre = [b.line('wreg', 'r0', v)]
    want = b.session(data, pre + list(single) + ['wreg r12 6'])
    b.ended(props, 'a line of commands')
    reads = b.read
    ends = reads < 3 + len(single)        # one of the commands ends the program
    texts = [w for s in want[2:] for l in b.lines(s) for w in l]
    regs, mem = b.regs(), b.block(0, 0x100)
    segs = b.session(data, pre + list(lines) + ['wreg r12 6'])
    b.ended(props, 'a line of commands')
    b.loc = 'cmdis/__main__.py:SimConsole.process_command_line'
    rule = 'commands on one line are carried out one after the other' if any(';' in x for x in lines) else 'a blank line repeats the last line'
    b.expect(props, rule, ends == (b.read < 3 + len(lines)), 'the program %s' % ('goes on' if ends else 'ends'))
    b.same_regs(props, rule, b.regs(), regs)
    b.same_bytes(props, rule, b.block(0, 0x100), mem, 0)
    got = [w for s in segs[2:] for l in b.lines(s) for w in l]
    b.is_text(props, rule, joined(got), joined(texts))


LINES = (
    (('wreg r1 5; wreg r2 6',), ('wreg r1 5', 'wreg r2 6')),
    (('wreg r1 5;wreg r1 6;wreg r2 7',), ('wreg r1 5', 'wreg r1 6', 'wreg r2 7')),
    (('; wreg r1 5 ;; s ; ',), ('wreg r1 5', 's')),
    (('zork; wreg r1 5',), ('zork', 'wreg r1 5')),
    (('wreg r99 1; wreg r1 5; wreg r2; wreg r3 4',), ('wreg r99 1', 'wreg r1 5', 'wreg r2', 'wreg r3 4')),
    (('read8; wreg r1 5; d [; s',), ('read8', 'wreg r1 5', 'd [', 's')),
    (('wreg r1 5; exit; wreg r2 6',), ('wreg r1 5', 'exit', 'wreg r2 6')),
    (('s;s', '', 'r0'), ('s', 's', 's', 's', 'r0')),
    (('s', '', '   ', '\t'), ('s', 's', 's', 's')),
    (('', '  ', 's'), ('s',)),
    (('s', 'reg r0', '', 's'), ('s', 'reg r0', 'reg r0', 's')),
    (('s', 'zork', '', 's'), ('s', 'zork', 'zork', 's')),
    (('s', 'wreg r99 1', '', ''), ('s', 'wreg r99 1', 'wreg r99 1', 'wreg r99 1')),
    (('  s  ', '', '  S ', ''), ('s', 's', 'S', 'S')),
    (('w8 0x20 1 2', 'read8 0x20 4', 'w8 0x21 7;read8 0x20 4', ''), ('w8 0x20 1 2', 'read8 0x20 4', 'w8 0x21 7', 'read8 0x20 4', 'w8 0x21 7', 'read8 0x20 4')),
    (('  WREG   R1   0x10  ', 'Reg\tr1', 'rEaD8 0X20 4'), ('wreg r1 0x10', 'reg r1', 'read8 0x20 4')),
    (('$ cpu.write_register("r1", 5); wreg r2 6', ''), ('$ cpu.write_register("r1", 5)', 'wreg r2 6', '$ cpu.write_register("r1", 5)', 'wreg r2 6')),
    (('R0', '  r0 ', 'SP;Pc'), ('r0', 'r0', 'sp', 'pc')),
)


def t_blank(b, _, props):
    """Blank lines before the first command do nothing; an interrupted input line changes nothing."""
    data = b.binary()
    b.loc = 'cmdis/__main__.py:SimConsole.run'
    b.unit = 'blank lines at the start'
    b.session(data, [])
    regs, mem = b.regs(), b.block(0, 0x100)
    segs = b.session(data, ['', '   ', '\t'])
    b.ended(props, 'blank lines')
    b.same_regs(props, 'a blank line without a last line does nothing', b.regs(), regs)
    b.same_bytes(props, 'a blank line without a last line does nothing', b.block(0, 0x100), mem, 0)
    for s in segs[1:]:
        b.expect(props, 'a blank line without a last line does nothing', not b.lines(s), 'a blank line prints something')
    b.unit = 'interrupt while a line is typed'
    segs = b.session(data, ['wreg r1 5', KeyboardInterrupt, 'wreg r2 6'])
    b.ended(props, 'interrupt')
    b.num(props, 'an interrupt while a line is typed does not end the console', b.v('reg', 2), 6, None, 'r2 (written after the interrupt)')
    b.num(props, 'an interrupt while a line is typed does not end the console', b.v('reg', 1), 5, None, 'r1')


def expr_shown(b, data, pre, line, want, regs, mem, props):
    b.unit = 'expression %s' % line
    b.loc = 'cmdis/__main__.py:SimTool.handle_python'
    segs = b.session(data, pre + [line, 'wreg r12 6'])
    b.ended(props, 'an expression does not end the console')
    b.loc = 'cmdis/__main__.py:SimTool.handle_python'
    b.num(props, 'an expression does not end the console', b.v('reg', 12), 6, None, 'r12 (written by the next command)')
    if b.read < len(pre) + 2:
        return
    now = b.regs()
    now[12] = regs[12]
    b.same_regs(props, 'an expression that writes nothing changes nothing', now, regs)
    b.same_bytes(props, 'an expression that writes nothing changes nothing', b.block(0, 0x100), mem, 0)
    ls = b.lines(segs[1 + len(pre)])
    if want is KeyError:
        b.expect(props, 'a failing expression is reported', bool(ls), 'nothing is printed')
    elif want is None:
        b.expect(props, 'nothing is shown for no result', not ls, 'a line is printed')
    else:
        b.expect(props, 'the result of an expression is shown', len(ls) == 1, '%d lines are printed' % len(ls))
        if len(ls) == 1:
            b.is_text(props, 'the result of an expression is shown', joined(ls[0]), want)


def t_expr(b, _, props):
    """'$' evaluates an expression with the CPU at hand and shows the result."""
    data = b.binary()
    v, w = b.sym('v', 32), b.sym('w', 32)
    small = b.sym('n', 31)
    pre = [b.line('wreg', 'r3', v), b.line('wreg', 'r4', small)]
    b.session(data, pre)
    regs, mem = b.regs(), b.block(0, 0x100)
    word = b.N.from_bits([x for k in range(4) for x in b.bits(mem[0x20 + k], 8)])
    inthex = lambda x: T.concat(['0x', b.hex(x, 8), ' (', T.from_int(b.I, x, 'd'), ')'])
    shown = (('$ 1+2', '0x00000003 (3)'), ('$0x10', '0x00000010 (16)'), ('  $   7 * 3  ', '0x00000015 (21)'), ('$ cpu.r[3].unsigned', inthex(v)),
             ('$cpu.read_register("r4").unsigned', inthex(small)), ('$ cpu.read32(0x20).unsigned', inthex(word)), ('$ "a" + "B"', 'aB'), ('$ 1 == 2', 'False'),
             ('$ cpu.r[4].unsigned + 1', inthex(b.N.add(small, 1))), ('$ 0', '0x00000000 (0)'), ('$ cpu.r[9].unsigned', '0x00000000 (0)'), ('$ []', '[]'), ('$ "ABC".lower() + "DeF"', 'abcDeF'), ('$ None', None), ('$ [1, 2]', '[1, 2]'), ('$ cpu is None', 'False'),
             ('$ cpu.mode == cpu.mode and "yes"', 'yes'), ('$ cpu.R', KeyError), ('$ 1/0', KeyError), ('$ zork', KeyError), ('$ )(', KeyError), ('$', KeyError), ('$  ', KeyError),
             ('$ x = 1', KeyError), ('$ int("zz")', KeyError), ('$ cpu.r[16]', KeyError), ('$ {}["k"]', KeyError), ('$ [][0]', KeyError))
    for line, want in shown:
        try:
            b.split(lambda: expr_shown(b, data, pre, line, want, regs, mem, props))
        except Unsupported as e:
            b.rep.undecided(None, 'expr', b.unit, 'not representable: %s' % e)
    for line, fn in (('$ cpu.write_register("r5", 0x1234)', 5), ('$ cpu.r.__setitem__(7, 9)', 7)):
        b.unit = 'expression %s' % line
        segs = b.session(data, pre + [line])
        b.ended(props, 'an expression does not end the console')
        b.loc = 'cmdis/__main__.py:SimTool.handle_python'
        want = dict(regs)
        want[fn] = 0x1234 if fn == 5 else 9
        b.same_regs(props, 'an expression acts on the simulated CPU', b.regs(), want)
        b.expect(props, 'nothing is shown for no result', not b.lines(segs[-1]), 'a line is printed')
    b.unit = 'expression that writes memory'
    segs = b.session(data, pre + ['$ cpu.write32(0x30, 0x04030201)'])
    b.ended(props, 'an expression does not end the console')
    b.same_bytes(props, 'an expression acts on the simulated CPU', b.block(0, 0x100), mem[:0x30] + (1, 2, 3, 4) + mem[0x34:], 0)


def t_options(b, _, props):
    """The command line: the log level, and that nothing else depends on it."""
    data = b.binary()
    b.session(data, [])
    regs, mem = b.regs(), b.block(0, 0x100)
    for flag in ('-d', '--debug'):
        for w, v in (('debug', 10), ('info', 20), ('warning', 30), ('error', 40), ('critical', 50)):
            b.unit = 'option %s %s' % (flag, w)
            b.session(data, [], {flag: w})
            b.ended(props, 'start with a log level')
            b.loc = 'cmdis/__main__.py:SimTool.configure_logging'
            b.expect(props, 'the option sets the log level', [x for g, x in b.I.levels][-1:] == [v], '%s %s sets %s' % (flag, w, [x for g, x in b.I.levels]))
            b.same_regs(props, 'the log level changes nothing else', b.regs(), regs)
            b.same_bytes(props, 'the log level changes nothing else', b.block(0, 0x100), mem, 0)
    b.unit = 'no option'
    b.session(data, [])
    b.expect(props, 'the log level is warning unless given', [x for g, x in b.I.levels][-1:] in ([30], []), 'the level is %s' % [x for g, x in b.I.levels])
    b.unit = 'other log levels'
    b.session(data, ['wreg r3 5'], {'-d': 'zork'})
    b.expect(props, 'an unknown log level is refused', b.live == 0 and b.read == 0 and all(x.name == 'SystemExit' and x.exc.d.get('args', (0,))[0] not in (0, None) for x in b.raised),
             'the console starts')


# commands whose effect and text depend on the state of the machine alone
ASKED = {'C37': ('read8 0x20 4', 'read16 0x21 6', 'read32 r6 8', 'read8 r6', 'w8 0x30 r0 [r6]'),
         'C44': ('wreg r2 r0', 'wreg r2 [r6]', 'wreg r2 [r6,#4]', 'wreg r2 [0x40,#-4]', 'wreg r2 pc', 'wreg r2 0x11', 'w32 0x30 lr'),
         'C45': ('reset',),
         'C46': ('d 0x40 8', 'd', 'd -c 0x50 16', 'disasm 0x48 8', 'd r6 8'),
         'C47': ('reg', 'reg r0', 'r3', 'reg pc', 'reg sp', 'regs', 'wreg r3 7')}
BEFORE = ('wreg r0 0x30', 'wreg r6 0x44', 'w8 0x22 7 8 9', 'w32 0x40 0x20062005', 's', 'reset', 'wreg pc 0x48', 'wreg r99 1', 'zork', 'd -c 0x50 16', 'd 0x40 8', 'read8 0x10 4',
          'read32 0x20 8', 'reg', '$ cpu.write_register("r0", 9)', '$ cpu.write32(0x44, 0x20072008)', 'w32 4 0x49', 'w32 0 0x20000800', 'd -z', 'read8', 'wreg control 2',
          's; s', '')

HARMLESS = ('wreg r99 1', 'zork', 'd -c 0x50 16', 'd 0x40 8', 'read8 0x10 4', 'read32 0x20 8', 'reg', 'd -z', 'read8')


def t_pair(b, which, props):
    """A command does the same whatever was typed before, as long as the machine is in the same state."""
    c1, c2 = which
    data = [x if type(x) is int else (i * 5 + 1) & 0x3f for i, x in enumerate(b.binary(0x41))]
    data[0x40:0x60] = [0x01, 0x30, 0x89, 0x18] * 8
    v = b.sym('v', 32)
    pre = [b.line('wreg', 'r1', v), 'wreg r6 0x40', 'wreg lr 0x51', 'wreg r0 3']
    b.loc = 'cmdis/__main__.py:SimTool'
    rule = 'a command depends on the state of the machine only'

    def outcome(lines):
        segs = b.session(data, pre + lines + ['wreg r12 6'])
        b.ended(props, rule)
        return joined([w for l in b.lines(segs[-2]) for w in l]) if len(segs) > 1 else '', b.regs(), b.block(0, 0x100)
    quiet = ['wreg r11 1'] if c1 == '' else []
    b.unit = 'line %r after %r, with and without having been typed before' % (c2, c1)
    text, regs, mem = outcome(quiet + [c1, c2])
    if c1 in HARMLESS:
        b.unit = 'line %r after %r, and alone' % (c2, c1)
        text1, regs1, mem1 = outcome([c2])
        b.same_regs(props, rule, regs, regs1)
        b.same_bytes(props, rule, mem, mem1, 0)
        b.is_text(props, rule, text, text1)
        b.unit = 'line %r after %r, with and without having been typed before' % (c2, c1)
    if 'r0 [r6]' in c2 or c2.startswith(('w32', 'wreg', 'reset')):
        # this line changes the machine: only where what it changes is of no effect on the line in between
        if c1 in ('s', 's; s', 'reset', ''):
            return
    got, regs2, mem2 = outcome([c2] + quiet + [c1, c2])
    if regs.get(11) is not None and quiet:
        regs2[11] = regs[11]
    b.same_regs(props, rule, regs2, regs)
    b.same_bytes(props, rule, mem2, mem, 0)
    b.is_text(props, rule, got, text)


FN = {'write': t_write, 'writeany': t_write_any, 'read': t_read, 'readany': t_read_any}


def tasks(prop, tier):
    deep = tier == 'thorough'
    out = []
    T_ = lambda kind, *xs: out.append((MODULES, 'console', (kind, tuple(xs))))
    if prop == 'C37':
        for name, w in sorted(GROUPS.items()):
            if name.startswith('write'):
                cases = [('write', name, w, a, n, how) for a in (0x20, 0x21, 0x3e, 0x7c, RAM, 0x20000102) for n in (1, 2, 3, 5, 8)
                         for how in (range(6) if deep else ((a + n) % 6,))]
                if deep:
                    cases += [('write', name, w, a, n, 1) for a in range(0x20, 0x31) for n in (1, 4, 7, 16, 17)]
                cases += [('writeany', name, w, n, how) for n in (1, 2, 3, 4) for how in ('hex', 'reg')]
            else:
                n = w // 8
                cases = [('read', name, w, a, ln, how) for a, how in ((0x20, 'hex'), (0x21, 'dec'), (0x3e, 'reg'), (0x10, 'HEX'), (0x17, 'bin'))
                         for ln in [None, n] + [n * k for k in ((2, 3, 4, 5, 7, 8, 9, 12, 16, 17) if not deep else range(2, 36)) if n * k <= 72]]
                cases += [('readany', name, w, k, how) for k in (1, 2, 4, 5, 9, 17) for how in ('hex', 'reg')]
            for i in range(0, len(cases), 12):
                T_('mem', *cases[i:i + 12])
    elif prop == 'C44':
        forms = ['hex', 'short hex', 'upper hex', 'underscores', 'binary', 'octal', 'mem any'] + ['lit ' + x for x in (
            '0', '1', '7', '10', '123456789', '4294967295', '1_000', '0x1F', '0XAB', '0b101', '0B1_1', '0o17', '0x_10', '-1', '-0x10', '+5', '0xffff_ffff', '0x0_ffff_ffff',
            '0x00000000ffffffff', '4_294_967_295', '-2147483648', '0b' + '1' * 32, '0b1' + '0' * 31, '0o37777777777', '2147483648', '0XFFFFFFFF', '-4294967295', '0000', '00')]
        forms += ['reg ' + n for n in sorted(IDX) if n not in ('primask', 'faultmask', 'basepri', 'sp', 'msp', 'psp')] + ['reg SP', 'reg R3', 'reg Lr', 'reg PC']
        forms += ['mem %d %d %s' % (a, o, s) for a in (0x20, 0x23) for o in (0, 4, 8, -4, 1, -7) for s in ('hex', 'reg', 'dec', 'REG', 'hexoff', 'zero')]
        for i in range(0, len(forms), 10):
            T_('value', *forms[i:i + 10])
        T_('badvalue', *BADVALUES)
    elif prop == 'C47':
        T_('reg', *sorted(IDX)[::2])
        T_('reg', *sorted(IDX)[1::2])
        T_('regs', 0)
        T_('noreg', 'zz', 'r16', 'r', 'apsr2', '15', 'pcc')
    elif prop == 'C45':
        T_('start', (BACK, 0x20000000, None), (BACK, 0x20000000, 0x41), (0, 0, 0), (8, 0x20000000, 0x9), (7, 0x20000000, 0x9), (4, 0x20001000, 0), (3, 0, 0),
           (BACK, 0, None), (BACK, 0x1fff8004, 0x41), (BACK, 0x1fff8000, 0x41), (BACK, 0x10000, 0x41), (BACK, 0x20007ffc, None), (BACK, 0x20008000, 0x41),
           (BACK, 0x20010000, None), (BACK, 0x20018004, 0x41), (BACK, 0x1000, 0x41), (BACK, 0x10000000, 0x41))
        T_('start', (0x10000, 0x20000000, 0x41), (0x10002, 0x20000000, 0x10001), (0x14000, 0x20000000, 0x13ff1))
        T_('reset', 'pc', 'sp', 'both')
    elif prop == 'C46':
        steps = [(hw, regs, 1, 0x40, True) for hw, regs in CODE] + [(hw, regs, 0, 0x42, True) for hw, regs in (CODE if deep else CODE[::3])]
        steps += [((0x3001,), {0: None}, 1, 0xfffe, False), ((0xf04f, 0x0207), {}, 1, 0xfffc, False), ((0x1888,), {1: None, 2: None}, 0, 0xfffc, False)]
        steps = [(hw, tuple(sorted(r.items())), t, a, x) for hw, r, t, a, x in steps]
        for i in range(0, len(steps), 6):
            T_('step', *steps[i:i + 6])
        T_('norun', *([(hw, 0x40) for hw in REFUSED] + [((), 0x30000000), ((), 0xfffffff0), ((0xf04f,), 0xfffe)]))
        lists = [(('d', '0x40', '8'), 0x40, 8, 0x42), (('disasm', '0x40', '32'), 0x40, 32, 0x50), (('d', '0x41', '0x10'), 0x40, 16, 0x41), (('d', 'r6', '12'), 0x40, 12, 0x43),
                 (('d', '0x40'), 0x40, 6, 0), (('d',), 0x4c, 6, 0x4c), (('d',), 0x4c, 6, 0x4d), (('d', '-c', '0x50', '16'), 0x48, 16, 0x50), (('d', '--center', '0x48', '8'), 0x44 + 0, 8, 0x48),
                 (('d', '0x50', '16', '-c'), 0x48, 16, 0x4c), (('d', '0x40', '2'), 0x40, 2, 0x40), (('d', '0x48', '0b1000'), 0x48, 8, 0x60)]
        lists += [(('d', '-c', '0x4a', '6'), 0x46, 6, 0x4a), (('d', '--center', '0x41', '2'), 0x40, 2, 0x40)]
        T_('list', *lists)
        T_('listbad', *[(hw, n) for hw in REFUSED + ((0xe8a9, 0x0201),) for n in (0, 1, 4)])
    elif prop == 'C51':
        for l in LINES:
            T_('line', l)
        T_('blank', 0)
        T_('expr', 0)
        T_('options', 0)
    elif prop == 'C36':
        T_('aliases', 0)
        T_('accepted', 0)
        T_('means', 0)
        for k in range(8 if not deep else 16):
            T_('words', (k, 8 if not deep else 16, 3 if deep else 2))
        for e in ('ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'AttributeError', 'AssertionError', 'ZeroDivisionError', 'Custom', 'KeyboardInterrupt',
                  'NotImplementedError', 'EOFError', 'StopIteration'):
            T_('fault', e)
    if prop in ASKED:
        both = [(c1, c2) for c2 in ASKED[prop] for c1 in BEFORE]
        for i in range(0, len(both), 8):
            T_('pair', *both[i:i + 8])
    return out


def run(S, args, props):
    rep = Report()
    kind, xs = args
    P = sorted(props)
    for x in xs:
        b = Console(S, rep, kind, props)
        try:
            if kind == 'mem':
                b.split(lambda: FN[x[0]](b, *(tuple(x[1:]) + (P,))))
            elif kind == 'step':
                b.split(lambda: t_step(b, (x[0], dict(x[1]), x[2], x[3], x[4]), P))
            else:
                b.split(lambda: globals()['t_' + kind](b, x, P))
        except Unsupported as e:
            rep.undecided(None, kind, b.unit, 'not representable: %s' % e)
    rep.touch(S.I)
    return rep
