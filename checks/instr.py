"""Instruction-level analysis: one unit per encoding of the reference tables."""
import time
from absint.num import SI, SB, Unsupported, TooLarge
from absint.values import *
from absint.session import Session, Delegate, EntryMissing, where
from absint import text as T
from spec.kit import K
from spec.machine import Effects
from spec.thumb import ROWS
from .report import Report
from .compare import Cmp

MODULES = ('cmdis', 'cmdis.decoder', 'cmdis.disasm', 'cmdis.model', 'cmdis.formatter')
FAMILY = {'dp': 'C08', 'adr': 'C08', 'shift': 'C09', 'load': 'C12', 'store': 'C13', 'multi': 'C14', 'branch': 'C15',
          'sys': 'C16', 'msr': 'C16'}
CAN_WRITE_PC = ('add:hi', 'mov:hi', 'ldr.w:reg', 'pop', 'pop.w', 'pop.w:one', 'ldm.w')
RAW_PC = ('add:hi', 'add:sp,reg2', 'mov:hi', 'bx')      # encodings whose operand may be PC
ROW = dict((r.name, r) for r in ROWS)


def shifted(row):
    """A data-processing row (C08) with a shifted register operand (C09)."""
    return row.name == 'mvn.w'


class Fields(object):
    def __getitem__(self, n):
        return getattr(self, n)


class Unit(object):
    """Abstract decode of one encoding with symbolic fields and address."""

    def __init__(self, S, row, rep, addr="addr", exact=True, fix=None, only=None, tag=None):
        self.S, self.row, self.rep = S, row, rep
        # a tagged unit describes another word, in the state another unit has left
        I = self.I = S.I if tag else S.begin(exact)
        self.tag = tag = tag or ''
        m, N = self.m, self.N = I.m, I.N
        self.nb = row.size * 8
        fixed = dict(row.pat.fixed)
        fixed.update(fix or {})
        self.bits = [fixed[b] if b in fixed else m.atom(('w' + tag, b), 0, 0) for b in range(self.nb)]
        self.k = K(I)
        f = self.f = Fields()
        for n, (lo, w) in row.pat.fields.items():
            setattr(f, n, N.from_bits(self.bits[lo:lo + w]))
        if hasattr(f, 'dn') and not hasattr(f, 'd'):
            f.d = f.n = f.dn
        if hasattr(f, 'dm') and not hasattr(f, 'd'):
            f.d = f.m = f.dm
        if addr == 'pc':
            f.addr = Delegate(I).initial(15)
        else:
            f.addr = N.from_bits([m.atom(('addr' + tag, b), 5, b) if b or addr == 'any' else 0 for b in range(32)])
        k = self.k
        self.valid = m.not_(row.undef(k, f))
        self.must = m.and_(self.valid, row.must(k, f))
        self.may = m.and_(m.and_(self.valid, row.may(k, f)), m.not_(self.must))
        self.good = m.all_([self.valid, m.not_(self.must), m.not_(self.may)])
        self.cmp = Cmp(I, rep, row.name, self.describe, only)
        self.state = []
        self.only = only
        self.fm = self.cpu = None       # formatter and model to use (None: a new one each time)
        self.watch = None         # what retained state the unit changed: {'decode': [...], 'format': [...], 'exec': [...]}

    def word(self, ev):
        return sum(ev.node(b) << i for i, b in enumerate(self.bits))

    def describe(self, src, ev):
        w = self.word(ev)
        hws = ['%04x' % ((w >> (16 * i)) & 0xffff) for i in range(self.row.size // 2)]
        d = {'halfwords': ' '.join(hws), 'address': '0x%x' % ev.num(self.f.addr)}
        for (tag, i), v in sorted(src.regs.items()):
            if tag == '':
                d['register %d' % i] = '0x%08x' % v
        return d

    def data(self, extra=0):
        N, m = self.N, self.m
        items = [N.from_bits(self.bits[8 * i:8 * i + 8]) for i in range(self.row.size)]
        for j in range(extra):
            items.append(N.from_bits([m.atom(('x', j, b), 7, b) for b in range(8)]))
        return items

    def decode(self, kind=PByteArray, extra=0):
        """(instruction or None, live guard, raised)"""
        I = self.I
        I.pc = 1
        tree = self.S.get('cmdis.disasm', 'decoder')
        items = self.data(extra)
        data = kind(items, 1) if kind is not PBytes else PBytes(items)
        I.pc = self.valid
        mark = I.jmark()
        r, live, raised = I.run(lambda: I.call(I.getattr(tree, 'decode'), [data, self.f.addr], {}))
        self.watched('decode', mark)
        return r, live, raised

    def watched(self, what, mark, *parts):
        if self.watch is None or self.watch.get(what):
            return
        from . import instr2
        known, seen = instr2.module_state(self.S)
        if parts:
            known, seen = dict(known), dict(seen)
            for p in parts:
                instr2.containers(p, known, seen)
        ch = instr2.changed(self, known, mark, self.good)
        if ch:
            self.watch[what] = ch

    def cls_where(self, ins):
        """Where the decoded instruction's class executes: 'file:class'."""
        out = []
        for g, v in self.I.alts(ins):
            if isinstance(v, Obj):
                f = v.cls.find('_eval')
                mod = getattr(f, 'module', None)
                out.append('%s:%s' % ((mod.file or mod.name) if mod else '?', getattr(f, 'qual', v.cls.name)))
        return '; '.join(sorted(set(out)))

    def handler_where(self):
        return getattr(self, '_hw', '') or 'decoding of %s' % self.row.name


def exc_guard(m, raised, *names):
    g = 0
    for x in raised:
        if any(c.name in names for c in x.exc.cls.mro):
            g = m.or_(g, x.guard)
    return g


# ------------------------------------------------------------------- phases
def ph_decode(u, props):
    """C01 outcome and mnemonic, C03 unpredictable, C05 other exceptions, C04 size, bytes, address."""
    I, m, N, row, c, rep = u.I, u.m, u.N, u.row, u.cmp, u.rep
    r, live, raised = u.decode()
    und = exc_guard(m, raised, 'UndefinedInstructionError')
    unp = exc_guard(m, raised, 'UnpredictableError')
    loc_u = loc_of(raised, 'UndefinedInstructionError')
    loc_p = loc_of(raised, 'UnpredictableError')
    c.never('C01', 'decodes', und, u.valid, loc_u, 'a word of %s is reported as undefined' % row.name)
    c.raises('C01', 'decodes', raised, u.valid, ('UndefinedInstructionError', 'UnpredictableError'))
    c.raises('C05', 'documented errors only', raised, u.valid, ('UndefinedInstructionError', 'UnpredictableError'))
    c.never('C03', 'predictable words decode', unp, u.good, loc_p, 'a predictable word of %s is rejected as unpredictable'
            % row.name)
    c.never('C03', 'unpredictable words are rejected', live, u.must, u.cls_where(r) if live else '',
            'an unpredictable word of %s is decoded' % row.name)
    rest = m.all_([u.must, m.not_(unp), m.not_(live)])
    c.never('C03', 'unpredictable words are rejected', rest, u.must, loc_of(raised, 'UndefinedInstructionError'),
            'an unpredictable word of %s fails with another error' % row.name)
    if live == 0:
        return
    I.pc = m.and_(live, m.not_(m.and_(live, u.must)))
    if I.pc == 0:
        return
    live = I.pc
    mn, ok, rs = I.run(lambda: I.getattr(r, 'mnemonic'))
    if rs or ok != live:
        c.raises('C17', 'mnemonic', rs, live)
    else:
        want = row.mnem(u.k, u.f) if callable(row.mnem) else [(row.mnem, 1)]
        for t, g in want:
            c.text('C01', 'mnemonic', mn, t, m.and_(live, g), u.cls_where(r), loose=False)
    u.ins, u.live = r, live


def ph_identity(u, props):
    """C04: size, bytes and address of the decoded instruction, with bytes following in the input."""
    I, m, N, row, c = u.I, u.m, u.N, u.row, u.cmp
    for kind, extra in ((PByteArray, 2), (PBytes, 0)):
        r, live, raised = u.decode(kind, extra)
        live = m.and_(live, u.good)
        if live == 0:
            continue
        I.pc = live
        loc = u.cls_where(r)
        for name, want in (('size', row.size), ('address', u.f.addr)):
            v, ok, rs = I.run(lambda: I.getattr(r, name))
            c.raises('C04', name, rs, live)
            if ok:
                plain_number(c, 'C04', name, v, want, ok, loc, "the instruction's %s" % name)
            I.pc = live
        b, ok, rs = I.run(lambda: I.nat.iter_items(I, I.getattr(r, 'bytes')))
        c.raises('C04', 'bytes', rs, live)
        if ok:
            items = u.data()
            for g, v in I.alts(b):
                g = m.and_(g, ok)
                if g == 0:
                    continue
                if len(v) != row.size:
                    c.never('C04', 'bytes', g, live, loc, 'the instruction has %d bytes instead of %d'
                            % (len(v), row.size))
                    continue
                for i, (x, y) in enumerate(zip(v, items)):
                    plain_number(c, 'C04', 'bytes', x, y, g, loc, 'byte %d of the instruction' % i)


def plain_number(c, prop, rule, got, want, care, loc, what):
    I, m = c.I, c.m
    for g, v in I.alts(got):
        g = m.and_(g, care)
        if g == 0:
            continue
        if type(v) in (int, SI):
            c.number(prop, rule, v, want, g, loc, what)
        elif isinstance(v, Obj):
            pc = I.pc
            I.pc = g
            n, ok, rs = I.run(lambda: I.call_method(v, '__int__', []))
            I.pc = pc
            if ok == g and type(n) in (int, SI):
                c.number(prop, rule, n, want, g, loc, what)
            else:
                c.never(prop, rule, g, care, loc, '%s is not an integer' % what)
        else:
            c.never(prop, rule, g, care, loc, '%s is of type %s' % (what, I.nat.type_name(v)))


def loc_of(raised, name):
    for x in raised:
        if any(c.name == name for c in x.exc.cls.mro):
            return where(x.exc)
    return ''


def new_formatter(u):
    I, S = u.I, u.S
    cpu = I.call(S.get('cmdis.model', 'CpuModel'), [], {})
    return I.call(S.get('cmdis.formatter', 'Formatter'), [cpu], {})


def run_format(u, ins):
    I = u.I

    def go():
        fm = u.fm if u.fm is not None else new_formatter(u)
        mark = I.jmark()
        r = I.call(I.getattr(fm, 'format'), [ins], {})
        u.watched('format', mark, ins)
        return r
    return I.run(go)


def expected_text(u):
    """[(guard, text)]"""
    I, m, N, k, row = u.I, u.m, u.N, u.k, u.row
    hw = []
    for h in range(row.size // 2):
        hw.append(T.from_int(I, N.from_bits(u.bits[16 * h:16 * h + 16]), '04x'))
    head = hw[0] if len(hw) == 1 else T.concat([hw[0], ' ', hw[1]])
    head = T.concat([head, ' ' * (12 - (4 if row.size == 2 else 9)), ' '])
    mn = row.mnem(k, u.f) if callable(row.mnem) else [(row.mnem, 1)]
    out = []
    for g, ts, cs in k.product(row.ops(k, u.f)):
        for t, h in mn:
            x = m.all_([g, h, u.good])
            if x == 0:
                continue
            parts = [head, '%-8s' % t]
            for i, o in enumerate(ts):
                if i:
                    parts.append(', ')
                parts.append(o)
            s = T.concat(parts)
            if cs:
                pc = I.pc
                I.pc = x
                s = T.pad(I, T.restrict(m, s, x), ' ', '<', 36)
                I.pc = pc
                s = T.concat([s, ' ; '] + [y for i, cm in enumerate(cs) for y in ((' ', cm) if i else (cm,))])
            out.append((x, s))
    return out


def ph_format(u, props):
    I, m, c, row = u.I, u.m, u.cmp, u.row
    r, live, raised = u.decode()
    if live == 0:
        return
    I.pc = live
    s, ok, rs = run_format(u, r)
    care = m.and_(live, m.not_(u.must))
    c.raises('C17', 'formatting completes', rs, care)
    loc = u.cls_where(r)
    if ok == 0:
        return
    if 'C02' in props:
        for x, want in expected_text(u):
            c.text('C02', 'operand text', s, want, m.and_(x, ok), 'cmdis/formatter.py and the decoding of %s (%s)' % (row.name, loc))


def run_exec(u, ins, tag='', deleg=None):
    I, S = u.I, u.S
    d = deleg or Delegate(I, tag)

    def go():
        cpu = u.cpu if u.cpu is not None else I.call(S.get('cmdis.model', 'CpuModel'), [], {})
        I.setattr(cpu, 'delegate', d)
        mark = I.jmark()
        r = I.call(I.getattr(ins, 'execute'), [cpu], {})
        u.watched('exec', mark, ins, cpu)
        return r
    r, ok, rs = I.run(go)
    return d, ok, rs


def last_loc(d, pred=None):
    for e, l in zip(reversed(d.rlog), reversed(d.rloc)):
        if pred is None or pred(e):
            return fmt_loc(l)
    return ''


def fmt_loc(l):
    # the innermost frame inside the instruction classes, else the innermost frame
    for f, q, n in reversed(l or []):
        if f and f.endswith('instructions.py'):
            return '%s:%s:%d' % (f, q, n)
    if l:
        return '%s:%s:%d' % tuple(l[-1])
    return ''


def ph_exec(u, props):
    I, m, N, k, c, row, rep = u.I, u.m, u.N, u.k, u.cmp, u.row, u.rep
    fam = FAMILY[row.kind]
    ins, live, raised = u.decode()
    live = m.and_(live, m.not_(m.and_(live, u.must)))
    if live == 0:
        return
    I.pc = live
    d, ok, rs = run_exec(u, ins)
    c.raises('C17', 'execution completes', rs, live)
    for p in [fam] + (['C08'] if shifted(row) else []):
        c.raises(p, 'execution completes', rs, m.and_(live, u.good))
    care = m.and_(ok, u.good)
    if care == 0:
        return
    cls = u.cls_where(ins)
    for g, what, tn, l in d.odd:
        if 'C30' in props:
            c.never('C30', 'plain integers', g, care, fmt_loc(l), '%s passed to the delegate is a %s' % (what, tn))
    E = Effects(k, d, row.size)
    row.sem(k, u.f, E)
    raw = None
    if row.name in RAW_PC:
        raw = Effects(k, d, row.size, raw=True)
        row.sem(k, u.f, raw)
    # an operand that is PC: compared separately below
    pcop = 0
    if row.name in RAW_PC:
        pcop = k.eq(u.f.m, 15)
        if row.name == 'add:hi':
            from spec.thumb import _dn4
            pcop = m.or_(pcop, k.eq(_dn4(k, u.f), 15))
        pcop = m.and_(pcop, care)
    main = m.and_(care, m.not_(pcop))
    # ---- PC
    want_pc, br, dest = E.final_pc()
    got_pc = d.fold(15, care)
    loc_pc = last_loc(d, lambda e: N.eq(e[1], 15) != 0) or cls
    if row.kind == 'branch':
        c.number('C15', 'next instruction address', got_pc, want_pc, main, loc_pc, 'PC after %s' % row.name)
    else:
        plain = m.and_(main, m.not_(dest))
        c.number('C07', 'PC advances by the size', got_pc, want_pc, plain, loc_pc, 'PC after %s' % row.name)
        if fam == 'C16':
            c.number('C16', 'PC advances by the size', got_pc, want_pc, plain, loc_pc, 'PC after %s' % row.name)
        if dest and row.name in CAN_WRITE_PC:
            dd = m.and_(main, dest)
            g2 = N.simplify(got_pc, dd) if type(got_pc) is SI else got_pc
            w2 = N.simplify(want_pc, dd) if type(want_pc) is SI else want_pc
            gb, wb = k.bits(g2, 32), k.bits(w2, 32)
            if row.name != 'add:hi':
                gb, wb = [0] + gb[1:], [0] + wb[1:]
            c.number(fam, 'PC as destination', k.fb(gb), k.fb(wb), dd, loc_pc, 'PC written by %s' % row.name)
            adv = k.bits(k.mod32(N.add(w2, row.size)), 32)
            if row.name != 'add:hi':
                adv = [0] + adv[1:]
            same = N.eq(k.fb(gb), k.fb(adv))
            if N.differ(k.fb(gb), k.fb(wb), dd) == 0:
                rep.good('C07', 'PC as destination is final')
            else:
                c.never('C07', 'PC as destination is final', same, dd, loc_pc,
                        'PC is advanced again after %s wrote it' % row.name)
    # ---- destination registers
    excluded = 0        # registers whose final content the reference defines
    done = []
    for g, i, v in E.regs:
        if any(i is j or N.eq(i, j) == 1 for j in done):
            continue
        done.append(i)
        cr = m.all_([main, E.written(i), m.not_(N.eq(i, 15))])
        if cr == 0:
            continue
        got = d.fold(i, cr)
        # a loaded register and a write-back base may be the same register: the last write counts
        want = E.final(i)
        special = type(i) is int and i > 15
        both = ['C16' if special else fam] + (['C08'] if shifted(row) else [])
        for prop in both:
            c.number(prop, 'destination register', got, want, cr,
                     last_loc(d, lambda e, i=i: N.eq(e[1], i) != 0) or cls,
                     'register %s after %s' % (i if type(i) is int else 'destination', row.name))
    # ---- flags
    xw = E.final_xpsr()
    xg = k.bits(d.fold(16, care), 32)
    loc_x = last_loc(d, lambda e: e[1] == 16) or cls
    for b in range(28, 32):
        c.node('C10', 'flag %s' % 'VCZN'[b - 28], xg[b], xw[b], main, loc_x, 'flag %s after %s' % ('VCZN'[b - 28], row.name))
    if row.kind != 'msr':
        for b in range(28):
            c.node('C10', 'other status bits', xg[b], xw[b], main, loc_x, 'xPSR bit %d after %s' % (b, row.name))
    # ---- frame
    frame = ['C11'] + [p for p in ('C13', 'C16') if p == fam]
    n = 0
    for (g, i, v), l in zip(d.rlog, d.rloc):
        other = m.and_(main, g)
        other = m.all_([other, m.not_(N.eq(i, 15)), m.not_(N.eq(i, 16)), m.not_(E.written(i))])
        if row.kind == 'msr':
            other = m.and_(other, N.lt(i, 16))
        if other == 0:
            continue
        n += 1
        for p in frame:
            c.number(p, 'no other register', d.fold(i, other), d.initial(i), other, fmt_loc(l),
                     'register %s after %s' % (i if type(i) is int else '(by index)', row.name))
    if not n:
        for p in frame:
            rep.good(p, 'no other register')
    # ---- memory
    if 'C11' in props or fam in props:
        mem_events(u, d, E, main, fam, cls)
    # ---- PC as operand
    if pcop:
        pc_operand(u, d, E, raw, pcop, fam, cls)


def same_number(u, got, want, care):
    return u.N.differ(got, want, care) == 0


def pc_operand(u, d, E, raw, care, fam, cls):
    """Instructions that name PC as an operand: the architected reading or a listed finding."""
    m, N, k, c, row, rep = u.m, u.N, u.k, u.cmp, u.row, u.rep
    got = d.fold(15, care)
    items = [(got, E.final_pc()[0], raw.final_pc()[0], care, 15)]
    done = []
    for g, i, v in E.regs:
        if any(i is j or N.eq(i, j) == 1 for j in done):
            continue
        done.append(i)
        cr = m.all_([care, E.written(i), m.not_(N.eq(i, 15))])
        if cr:
            items.append((d.fold(i, cr), E.final(i), raw.final(i), cr, i))
    for got, want, rawv, cr, i in items:
        if same_number(u, got, want, cr):
            rep.good(fam, 'PC as operand')
            continue
        rule = 'PC as operand reads its raw value' if same_number(u, got, rawv, cr) else 'PC as operand'
        loc = last_loc(d, lambda e, i=i: N.eq(e[1], i) != 0) or cls
        c.number(fam, rule, got, want, cr, loc, '%s after %s with PC as operand'
                 % ('PC' if i == 15 else 'the destination', row.name))


def mem_events(u, d, E, care, fam, cls):
    m, N, c, row, rep = u.m, u.N, u.cmp, u.row, u.rep
    prop = fam if row.kind in ('load', 'store', 'multi', 'sys', 'msr') else 'C11'
    want = [('r', g, a, s, None) for g, a, s in E.loads] + [('w', g, a, s, v) for g, a, s, v in E.stores]
    got = [(k_, g, a, s, v) for g, k_, a, s, v in d.mem]
    left = [m.and_(g, care) for k_, g, a, s, v in got]
    ok = True
    for kd, g, a, s, v in want:
        need = m.and_(g, care)
        if need == 0:
            continue
        for i, (k2, g2, a2, s2, v2) in enumerate(got):
            if k2 != kd or s2 != s:
                continue
            both = m.and_(need, left[i])
            if both == 0:
                continue
            e = N.eq(N.simplify(a, both), N.simplify(a2, both))
            hit = m.and_(both, e)
            if hit and kd == 'w':
                ev = N.eq(N.simplify(v, both), N.simplify(v2, both))
                hit = m.and_(hit, ev)
            if hit:
                need = m.and_(need, m.not_(hit))
                left[i] = m.and_(left[i], m.not_(hit))
            if need == 0:
                break
        if need:
            ok = False
        else:
            rep.good(prop, 'memory access')
    extra = m.any_(left)
    if ok and extra == 0:
        rep.good('C11', 'no other memory access')
        if fam == 'C16':
            rep.good('C16', 'no memory access')
        return

    def conc(ev, evs):
        out = []
        for kd, g, a, s, v in evs:
            if ev.node(m.and_(g, care)):
                out.append((kd, ev.num(a), s, ev.num(v) if kd == 'w' else None))
        return sorted(out, key=repr)

    def differ(ev):
        a, b = conc(ev, got), conc(ev, want)
        if a == b:
            return None
        return a, b
    from absint.session import witness
    hint = extra or care
    x = witness(m, care, differ, hint)
    if x is None:
        rep.undecided(prop, 'memory access', row.name, 'accesses not matched, no witness')
        return
    src, ev, (a, b) = x
    dsc = u.describe(src, ev)
    show = lambda es: ['%s%d 0x%08x%s' % ('load' if e[0] == 'r' else 'store', e[1 + 1], e[1],
                                          '' if e[3] is None else ' = 0x%x' % e[3]) for e in es]
    dsc['got'], dsc['expected'] = show(a), show(b)
    rep.violation(prop, 'memory access', row.name, 'memory accesses %s, expected %s' % (show(a), show(b)), cls, dsc)
    if len(a) > len(b) and prop != 'C11':
        rep.violation('C11', 'no other memory access', row.name, 'memory accesses %s, expected %s' % (show(a), show(b)),
                      cls, dsc)


PHASES = {'decode': ph_decode, 'identity': ph_identity, 'format': ph_format, 'exec': ph_exec}


# rows whose long register lists are analysed by cases over the upper list bits (and the write-back bit)
SPLITS = {('push.w', 'format'): 5, ('pop.w', 'format'): 5, ('stm.w', 'format'): 5, ('ldm.w', 'format'): 5,
          ('ldm.w', 'exec'): 3, ('stm.w', 'exec'): 2}


def split_bits(row):
    """Word bits by which a unit is split, in order."""
    fs = row.pat.fields
    out = [fs['W'][0]] if 'W' in fs and 'list' in fs else []
    if 'list' in fs:
        lo, w = fs['list']
        out += [lo + w - 1 - i for i in range(w)]
    for n, (lo, w) in sorted(fs.items()):
        out += [lo + i for i in range(w) if lo + i not in out]
    return out


def tasks(row, phases):
    """Independent units of work of a row: [(phase, fixed word bits)]."""
    out = []
    for ph in phases:
        n = SPLITS.get((row.name, ph[6:] if ph.startswith('value-') else ph), 0)
        bits = split_bits(row)
        if ph.endswith('format') and 'W' in row.pat.fields:
            bits = bits[1:]
        bits = bits[:n]
        for v in range(1 << n):
            out.append((ph, dict((b, (v >> i) & 1) for i, b in enumerate(bits))))
    return out


def sample_tasks(row):
    """Cheap units ahead of the complete ones: execution with some register lists fixed."""
    fs = row.pat.fields
    if 'list' not in fs:
        return []
    lo, w = fs['list']
    out = []
    for k, v in enumerate((0b1, 0b11, 0b101, 0b110, 0b10000001, 0b1010111, 0b11111111, 0b1100000011000, 0b1000000000001, 0b1111111111111)):
        if v >> w:
            continue
        fix = dict((lo + i, (v >> i) & 1) for i in range(w))
        for j, n in enumerate('MP'):
            if n in fs:
                fix[fs[n][0]] = (k + j) % 3 == 1
        out.append(('exec', dict((b, int(x)) for b, x in fix.items())))
    return out


def run_task(S, row, ph, fix, props, times=None, depth=0):
    rep = Report()
    t = time.time()
    rep.units.add('%s:%s' % (row.name, ph))
    try:
        u = Unit(S, row, rep, fix=fix, addr={'target': 'pc', 'identity': 'any'}.get(ph, 'addr'), only=props)
        if ph in ('decode', 'identity', 'format', 'exec', 'target', 'names'):
            u.watch = {}
        PHASES[ph](u, props)
        if u.watch and not rep.only(props).bad:
            from . import instr2
            instr2.again(u, props, ph)
    except TooLarge as e:
        free = [b for b in split_bits(row) if b not in fix]
        if depth == 3 or not free:
            rep.undecided(None, ph, row.name, 'not representable: %s' % e)
        else:
            rep = Report()
            for v in (0, 1):
                f2 = dict(fix)
                f2[free[0]] = v
                rep.merge(run_task(S, row, ph, f2, props, times, depth + 1))
    except Unsupported as e:
        rep.undecided(None, ph, row.name, 'not representable: %s' % e)
    if times is not None:
        times.append((time.time() - t, row.name, ph))
    rep.touch(S.I)
    return rep


def run_row(S, row, phases, props, times=None):
    rep = Report()
    for ph, fix in tasks(row, phases):
        rep.merge(run_task(S, row, ph, fix, props, times))
    return rep
