"""Units of analysis: symbolic inputs, the abstract delegate, comparison of normal forms, witnesses."""
import os
import random
from .num import SI, SB, Evaluator, Unsupported
from .values import *
from .interp import Interp
from .load import Loader
from . import text as T

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORNERS = (0, 1, 2, 3, 4, 0x1f, 0x20, 0x21, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000,
           0x80000001, 0xfffffffe, 0xffffffff)


REGS = ('reg', 'reg2')
MEMS = ('mem', 'mem2')


class EntryMissing(Exception):
    """A function or class the analysis is anchored at no longer exists."""


class Session(object):
    def __init__(self, repo=None, modules=()):
        self.I = Interp(Loader(repo))
        self.I.step_cap = 1 << 60
        self.mods = {}
        for name in modules:
            self.mods[name] = self.load(name)

    def load(self, name):
        I = self.I
        r, live, raised = I.run(lambda: I.load_module(name))
        if live != 1 or raised:
            raise InitFailed(name, raised)
        return r

    def driver(self, name, src):
        """Load a module of small functions written by a check, analysed together with the package."""
        if name not in self.mods:
            self.I.rollback()
            self.I.reset(True)
            self.I.loader.extra[name] = src
            self.mods[name] = self.load(name)
        return self.mods[name]

    def begin(self, exact=False):
        self.I.begin(exact)
        self.I.step_cap = 6000000
        return self.I

    def get(self, mod, path):
        I = self.I
        v = self.mods[mod]
        for p in path.split('.'):
            r, live, raised = I.run(lambda: I.getattr(v, p))
            if live == 0:
                raise EntryMissing('%s.%s' % (mod, path))
            v = r
        return v

    def sym(self, name, width, cls=5, idx=None, signed=False):
        """Fresh symbolic integer of the given width."""
        m, N = self.I.m, self.I.N
        bits = [m.atom((name, k), cls, k if idx is None else idx) for k in range(width)]
        return N.signed_from_bits(bits) if signed else N.from_bits(bits)

    def call(self, f, *args, **kw):
        return self.I.run(lambda: self.I.call(f, list(args), kw))

    def method(self, o, name, *args, **kw):
        return self.I.run(lambda: self.I.call(self.I.getattr(o, name), list(args), kw))


class InitFailed(Exception):
    def __init__(self, name, raised):
        Exception.__init__(self, name)
        self.name = name
        self.raised = raised


def where(exc):
    """file:function:line of an abstract exception's origin."""
    w = exc.where or []
    if not w:
        return 'module level'
    f, q, l = w[-1]
    return '%s:%s:%d' % (f, q, l)


class Delegate(NativeObj):
    """Abstract machine state: guarded write log over uninterpreted initial registers and memory."""

    def __init__(self, I, tag=''):
        self.I = I
        self.tag = tag       # names a separate machine state
        self.rlog = []       # (guard, index, value)
        self.rloc = []       # location of each entry of rlog
        self.mem = []        # (guard, kind, addr, size, value)
        self.version = 0
        self.odd = []        # (guard, what): arguments that are not plain integers
        self.calls = []

    # initial state
    def initial(self, idx):
        m, N = self.I.m, self.I.N
        key = idx.key if type(idx) is SI else idx
        bits = [m.atom(('reg' + self.tag, key, k), 5, k) for k in range(32)]
        if type(idx) is SI:
            sp = m.not_(N.eq(idx, 13))
            if sp != 1:
                bits[0] = m.and_(bits[0], sp)
                bits[1] = m.and_(bits[1], sp)
            pc = m.not_(N.eq(idx, 15))
            if pc != 1:
                bits[0] = m.and_(bits[0], pc)
        elif idx == 13:
            bits[0] = bits[1] = 0
        elif idx == 15:
            bits[0] = 0
        return N.from_bits(bits)

    def fold(self, idx, care):
        """Value of register idx after the log, for states in care."""
        m, N = self.I.m, self.I.N
        out = None
        stack = []
        for g, i, v in reversed(self.rlog):
            c = m.and_(g, N.eq(idx, i))
            x = m.and_(c, care)
            if x == 0:
                continue
            stack.append((m.general(c, care), v))
            if x == care:
                break
            care = m.and_(care, m.not_(c))
        else:
            out = self.initial(idx)
        for c, v in reversed(stack):
            out = v if out is None else N.ite(c, v, out)
        return out

    def plain(self, v, what):
        """A plain integer argument, or a note that it is not one."""
        I = self.I
        if type(v) is Choice:
            return I.split(v.alts, lambda a: self.plain(a, what))
        if type(v) in (int, SI):
            return v
        if type(v) in (bool, SB):
            return I.N.b2i(v)
        self.odd.append((I.pc, what, I.nat.type_name(v), I.location()))
        if isinstance(v, Obj):
            f = I.call_method(v, '__index__', [])
            if f is ABSENT:
                f = I.call_method(v, '__int__', [])
            if f is not ABSENT:
                return f
        raise Unsupported('delegate argument of type %s' % I.nat.type_name(v))

    def index(self, reg):
        reg = self.plain(reg, 'register number')
        if type(reg) is not SI and reg < 0:
            reg &= 0xff
        elif type(reg) is SI and self.I.N.rng(reg)[0] < 0:
            reg = self.I.N.mod2(reg, 8)
        return reg

    def p_read_register(self, I, args, kw):
        idx = self.index(args[0])
        self.calls.append((I.pc, 'read_register', (idx,)))
        return I.read(self.fold(idx, I.pc))[0]

    def p_write_register(self, I, args, kw):
        idx = self.index(args[0])
        v = self.plain(args[1], 'register value')
        self.calls.append((I.pc, 'write_register', (idx, v)))
        self.rlog.append((I.pc, idx, v))
        self.rloc.append(I.location())

    def size(self, args, kw, n):
        s = args[n] if len(args) > n else kw.get('size', 32)
        s = self.plain(s, 'access size')
        if type(s) is SI:
            vals = self.I.N.values(s, self.I.pc)
            raise Unsupported('symbolic access size %r' % (vals,))
        return s

    def p_read_memory(self, I, args, kw):
        addr = self.plain(args[0] if args else kw['addr'], 'address')
        size = self.size(args, kw, 1)
        self.calls.append((I.pc, 'read_memory', (addr, size)))
        if self.version:
            raise Unsupported('memory read after a write')
        v = self.memory(addr, size)
        self.mem.append((I.pc, 'r', addr, size, v))
        return v

    def p_read_memory_block(self, I, args, kw):
        addr = self.plain(args[0] if args else kw['addr'], 'address')
        n = self.plain(args[1] if len(args) > 1 else kw['length'], 'length')
        self.calls.append((I.pc, 'read_memory_block', (addr, n)))
        if type(n) is SI:
            raise Unsupported('block of symbolic length')
        return PByteArray([self.memory(I.N.add(addr, k), 8) for k in range(n)], I.pc)

    def p_write_memory_block(self, I, args, kw):
        addr = self.plain(args[0] if args else kw['addr'], 'address')
        data = args[1] if len(args) > 1 else kw['data']
        self.calls.append((I.pc, 'write_memory_block', (addr, data)))
        self.version += 1

    def memory(self, addr, size):
        """Initial content of memory."""
        key = ('B',) + tuple(self.I.N.bits(addr, 32)) if type(addr) is SI else addr & 0xffffffff
        return self.I.N.from_bits([self.I.m.atom(('mem' + self.tag, key, size, k), 5, k) for k in range(size)])

    def p_write_memory(self, I, args, kw):
        a = list(args)
        addr = self.plain(a[0] if a else kw['addr'], 'address')
        v = self.plain(a[1] if len(a) > 1 else kw['value'], 'value')
        size = self.size(args, kw, 2)
        self.calls.append((I.pc, 'write_memory', (addr, v, size)))
        self.mem.append((I.pc, 'w', addr, size, v))
        self.version += 1


class Source(object):
    """A concrete point of the symbolic inputs, lazily completed."""

    def __init__(self, rnd, fixed=None, mode=0):
        self.rnd = rnd
        self.fixed = fixed or {}       # descriptor -> bit
        self.mode = mode
        self.regs = {}
        self.mem = {}
        self.vals = {}

    def word(self, w):
        r = self.rnd
        x = r.randrange(4) if self.mode else 3
        if x == 0:
            return r.choice(CORNERS) & ((1 << w) - 1)
        if x == 1:
            return (1 << r.randrange(w)) - r.randrange(2) & ((1 << w) - 1)
        if x == 2:
            return r.randrange(64) & ((1 << w) - 1)
        return r.getrandbits(w)

    def key(self, k, ev):
        if isinstance(k, int):
            return k
        if k[0] == 'B':
            return sum(ev.node(n) << i for i, n in enumerate(k[1:]))
        return ev.form(k)

    def __call__(self, d, ev):
        if d in self.fixed:
            b = self.fixed[d]
            if d[0] in REGS:
                i = (d[0][3:], self.key(d[1], ev))
                if i not in self.regs:
                    self.regs[i] = self.newreg(i)
                if ('set', i, d[2]) not in self.vals:
                    self.vals[('set', i, d[2])] = b
                    self.regs[i] = self.regs[i] & ~(1 << d[2]) | (b << d[2])
                return (self.regs[i] >> d[2]) & 1
            if d[0] not in MEMS:
                return b
        if d[0] in REGS:
            i = (d[0][3:], self.key(d[1], ev))
            if i not in self.regs:
                self.regs[i] = self.newreg(i)
            return (self.regs[i] >> d[2]) & 1
        if d[0] in MEMS:
            a = self.key(d[1], ev)
            a += d[3] // 8
            a &= 0xffffffff
            a = (d[0][3:], a)
            if a not in self.mem:
                self.mem[a] = self.word(8)
            return (self.mem[a] >> (d[3] % 8)) & 1
        name = d[:-1]
        if name not in self.vals:
            self.vals[name] = self.word(64) if self.mode else self.rnd.getrandbits(64)
        return (self.vals[name] >> d[-1]) & 1

    def newreg(self, i):
        if self.regs and self.mode and self.rnd.randrange(4) == 0:
            return self.rnd.choice(sorted(self.regs.values()))
        return self.word(32)


def witness(m, care, differ, hint=None, tries=120, seed=None):
    """A point in care where differ(evaluator) is true: (source, evaluator, info) or None.

    hint: node whose satisfying paths are tried first."""
    rnd = random.Random(SEED if seed is None else seed)
    h = care if hint is None else m.and_(care, hint)
    if h == 0:
        return None
    for t in range(tries):
        node = h if t % 3 != 2 else care
        path = m.sat_path(node, rnd)
        fixed = {}
        for lv, b in path.items():
            d = m.atoms[lv]
            if d[0] in ('bit', 'eq0', 'eqm'):
                continue
            fixed[d] = b
        src = Source(rnd, fixed, t % 4)
        ev = Evaluator(m, src)
        if not ev.node(care):
            continue
        info = differ(ev)
        if info:
            return src, ev, info
    return None
