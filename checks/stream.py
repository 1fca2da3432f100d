"""Disassembly of a buffer: C06."""
import itertools
from absint.num import SI, SB, Unsupported
from absint.values import *
from .report import Report
from .bits import Bits

MODULES = ('cmdis', 'cmdis.bitstring', 'cmdis.decoder', 'cmdis.instructions', 'cmdis.disasm')
DDRV = 'driver_stream'
DSRC = '''
from cmdis.decoder import DECODER_TREE, UndefinedInstructionError
from cmdis.disasm import Disassembler, decoder
def show(i):
    return (i.address, i.size, list(i.bytes), i.mnemonic)
def single(data, address):
    try:
        return show(decoder.decode(data, address))
    except UndefinedInstructionError:
        return None
def actual(data, address):
    out = []
    try:
        for i in Disassembler().disasm(data, address):
            out.append(show(i))
    except UndefinedInstructionError:
        return (out, True)
    return (out, False)
def default(data):
    out = []
    try:
        for i in Disassembler().disasm(data):
            out.append(show(i))
    except UndefinedInstructionError:
        return (out, True)
    return (out, False)
def twice(data, address):
    d = Disassembler()
    try:
        for i in d.disasm(data, address):
            break
    except UndefinedInstructionError:
        pass
    out = []
    try:
        for i in d.disasm(data, address):
            out.append(show(i))
    except UndefinedInstructionError:
        return (out, True)
    return (out, False)
KEEP = [None]
OTHER = bytes((0x01, 0x20, 0x02, 0x21, 0x00, 0xf0, 0x00, 0xf8, 0x03, 0x22, 0x04, 0x23))
def disturb():
    for i in KEEP[0].disasm(OTHER, 0x4000):
        show(i)
    for i in Disassembler().disasm(OTHER):
        break
    decoder.decode(OTHER, 0x40)
def interleaved(data, address):
    KEEP[0] = d = Disassembler()
    out = []
    try:
        for i in d.disasm(data, address):
            out.append(show(i))
    except UndefinedInstructionError:
        return (out, True)
    return (out, False)
def turns(data, address):
    d = Disassembler()
    p = d.disasm(data, address)
    q = d.disasm(OTHER, 0x4000)
    r = Disassembler().disasm(OTHER)
    out = []
    try:
        while True:
            i = next(p, None)
            if i is None:
                break
            next(q, None)
            out.append(show(i))
            next(r, None)
    except UndefinedInstructionError:
        return (out, True)
    return (out, False)
def spread(data, address):
    n = 0
    out = []
    for i in Disassembler().disasm(data, address):
        n += 1
        if n % 31 == 0:
            out.append((n, i.address, i.size, bytes(i.bytes)))
    return (n, out)
'''
P = ['C06']
# kind: halfwords with a mask of symbolic bits
KINDS = {
    'S': [(0x2000, 0x07ff)],                      # movs
    'L': [(0xf000, 0x07ff), (0xf800, 0x07ff)],    # bl
    'u': [(0xb800, 0x0000)],
    'U': [(0xfc00, 0x0000), (0x0000, 0x0000)],
    'h': [(0xf000, 0x07ff)],                      # first half of a long instruction
    'b': [],                                      # a single byte
}


def sequences(tier):
    out = set()
    deep = 4 if tier == 'quick' else 6
    for n in range(0, deep + 1):
        for good in itertools.product('SL', repeat=n):
            g = ''.join(good)
            for end in ('', 'b', 'h', 'hb', 'u', 'U', 'ub', 'uS', 'uSb', 'uL', 'US', 'uh', 'uhb', 'Ub', 'uSS'):
                out.add(g + end)
    return sorted(out)


class Stream(Bits):
    def __init__(self, S, rep, unit, only):
        S.driver(DDRV, DSRC)
        Bits.__init__(self, S, rep, unit, only)

    def h(self, fn, *args):
        saved, self.drv = self.drv, DDRV
        try:
            return self.run(fn, *args)
        finally:
            self.drv = saved


def t_seq(b, seq, kind):
    N, m, I = b.N, b.m, b.I
    b.unit = 'sequence %s as %s' % (seq or '(empty)', kind)
    b.loc = 'cmdis/disasm.py:Disassembler.disasm'
    data, starts = [], []
    pos = 0
    for i, k in enumerate(seq):
        starts.append((len(data), k))
        if k == 'b':
            data.append(b.sym('byte%d' % i, 8))
            continue
        for j, (base, free) in enumerate(KINDS[k]):
            v = b.sym('h%d_%d' % (i, j), free.bit_length()) if free else 0
            bits = b.bits(v, 16)
            hw = N.from_bits([x if (free >> q) & 1 else (base >> q) & 1 for q, x in enumerate(bits)])
            hb = b.bits(hw, 16)
            data += [N.from_bits(hb[:8]), N.from_bits(hb[8:])]
    addr = N.mulc(b.sym('addr', 30), 2) if kind != 'default' else 0

    def buf(items):
        if kind == 'bytes':
            return PBytes(items) if not all(type(x) is int for x in items) else bytes(items)
        if kind == 'list':
            return PList(items, 1)
        return PByteArray(items, 1)
    # reference: single decodes at the right places
    want = []
    off = 0
    rest = None
    error = False
    while off < len(data):
        r, live, raised = b.h('single', buf(data[off:]), N.add(addr, off))
        if live != 1 or raised:
            raise Unsupported('single decode fails')
        if type(r) is Choice:
            raise Unsupported('single decode is not uniform')
        if r is None:
            error = len(data) - off >= 4
            b.rep.units.add('undefined at %s' % seq[[p for p, k in starts].index(off)])
            break
        want.append((off, r))
        size = r[1]
        if type(size) is not int or size not in (2, 4):
            b.cmp.never('C06', 'size', 1, 1, b.loc, 'the size of an instruction is neither 2 nor 4')
            return
        off += size
    if kind == 'default':
        r, live, raised = b.h('default', buf(data))
    else:
        if kind == 'interleaved':
            # between any two instructions of a disassembly others are done, on the same disassembler and on another
            def hook(f, v):
                if f.module.name in ('cmdis.disasm', 'cmdis.decoder'):
                    I.on_yield = None
                    try:
                        I.call(b.S.get(DDRV, 'disturb'), [], {})
                    finally:
                        I.on_yield = hook
            I.on_yield = hook
        try:
            r, live, raised = b.h(kind if kind in ('twice', 'interleaved', 'turns') else 'actual', buf(data), addr)
        finally:
            I.on_yield = None
    b.fine(P, 'only the undefined-instruction error is raised', raised)
    for g, t in I.alts(r):
        g = m.and_(g, live)
        if g == 0:
            continue
        items, err = t
        b.boolean(P, 'an undefined instruction is reported unless fewer than four bytes remain', err, 1 if error else 0, g,
                  'the error reported')
        its = I.nat.iter_items(I, items)
        if type(its) is not tuple:
            raise Unsupported('number of instructions depends on the content')
        b.num(P, 'every instruction is delivered once', len(its), len(want), g, 'the number of instructions')
        for x, (off, w) in zip(its, want):
            b.num(P, 'addresses follow one another', x[0], N.add(addr, off), g, 'the address of an instruction')
            b.num(P, 'addresses follow one another', x[1], w[1], g, 'the size of an instruction')
            xb, wb = I.nat.iter_items(I, x[2]), data[off:off + w[1]]
            if type(xb) is tuple and len(xb) == len(wb):
                for p, q in zip(xb, wb):
                    b.num(P, 'each is decoded from its own bytes', p, q, g, 'a byte of an instruction')
            else:
                b.cmp.never('C06', 'each is decoded from its own bytes', g, g, b.loc, 'the bytes of an instruction have another length')
            b.text(P, 'each is decoded from its own bytes', x[3], w[3], g)


def t_long(b, n):
    """A buffer of about n bytes: offsets into it are never reduced to fewer bits."""
    I, m = b.I, b.m
    b.unit = 'buffer of %d bytes' % n
    I.LOOP_CAP = max(I.LOOP_CAP, n)
    b.loc = 'cmdis/disasm.py:Disassembler.disasm'
    data, want = [], []
    k = 0
    base = 0x8000000
    while len(data) < n:
        k += 1
        here = len(data)
        w = (0xf3bf, 0x8f40 | ((k * 7 + (k >> 7)) % 48)) if k % 8 else (0xbf00 | (k * 11 + (k >> 8)) % 5 << 4,)
        new = [x for h in w for x in (h & 0xff, h >> 8)]
        data += new
        if k % 31 == 0:
            want.append((k, base + here, len(new), bytes(new)))
    r, live, raised = b.h('spread', bytes(data), base)
    b.fine(P, 'only the undefined-instruction error is raised', raised)
    for g, t in I.alts(r):
        g = m.and_(g, live)
        if g == 0:
            continue
        b.num(P, 'every instruction is delivered once', t[0], k, g, 'the number of instructions')
        its = I.nat.iter_items(I, t[1])
        for x, y in zip(its if type(its) is tuple else (), want):
            if type(x) is tuple and list(x) == list(y):
                continue
            for p, q, what in ((x[1], y[1], 'the address of an instruction'), (x[2], y[2], 'the size of an instruction')):
                b.num(P, 'addresses follow one another', p, q, g, what)
            if x[3] != y[3]:
                b.cmp.never('C06', 'each is decoded from its own bytes', g, g, b.loc, 'instruction %d at 0x%x has bytes %s, expected %s' % (
                    y[0], y[1], x[3].hex() if type(x[3]) is bytes else '(other)', y[3].hex()))
            return
        b.num(P, 'each is decoded from its own bytes', len(its) if type(its) is tuple else -1, len(want), g, 'the number of instructions')


def tasks(tier):
    seqs = sequences(tier)
    out = [(MODULES, 'stream', ('long', (n,))) for n in ((600, 65800) if tier == 'quick' else (600, 5000, 70000, 140000))]
    for kind in ('bytearray', 'bytes', 'list', 'default', 'twice', 'interleaved', 'turns'):
        sel = seqs if kind == 'bytearray' else [s for s in seqs if len(s) <= 3]
        for i in range(0, len(sel), 12):
            out.append((MODULES, 'stream', (kind, tuple(sel[i:i + 12]))))
    return out


def run(S, args, props):
    rep = Report()
    kind, seqs = args
    for seq in seqs:
        b = Stream(S, rep, 'sequence', props)
        try:
            t_long(b, seq) if kind == 'long' else t_seq(b, seq, kind)
        except Unsupported as e:
            rep.undecided(None, 'stream', b.unit, 'not representable: %s' % e)
    rep.touch(S.I)
    return rep
