"""The supported Thumb encodings: words, mnemonics, operands and effects.

Written from the ARMv7-M / ARMv8-M architecture description of each encoding;
never reads anything from the package under analysis.
"""
from .kit import CONDS, Pattern
from absint import text as T

ROWS = []


class Row(object):
    def __init__(self, name, pats, mnem, ops, sem, kind, undef=None, must=None, may=None, sets=True):
        self.name, self.mnem, self.ops, self.sem, self.kind = name, mnem, ops, sem, kind
        self.pat = Pattern(*pats)
        self.size = self.pat.size
        self.undef = undef or (lambda k, f: 0)      # the word belongs to another encoding or to none
        self.must = must or (lambda k, f: 0)        # UNPREDICTABLE, and rejected
        self.may = may or (lambda k, f: 0)          # UNPREDICTABLE, not tabulated by the project: either answer


def row(name, *pats, **kw):
    ROWS.append(Row(name, pats, kw.pop('mnem', name.split(':')[0]), **kw))


def regs(*names):
    def f(k, f_):
        return [k.reg(f_[n]) for n in names]
    return f


def bad(k, *vals):
    return k.m.any_([k.isin(v, (13, 15)) for v in vals])


# ------------------------------------------------------------- semantics ----
def nz(k, M, r, **kw):
    M.flags(N=k.bit(r, 31), Z=k.eq(r, 0), **kw)


def bitop(op, flags=True):
    def sem(k, f, M):
        a, b = M.R(f.n), M.R(f.m)
        if op == 'bic':
            r = k.N.band(a, k.inv32(b))
        else:
            r = getattr(k.N, {'and': 'band', 'eor': 'bxor', 'orr': 'bor'}[op])(a, b)
        M.w(f.d, r)
        nz(k, M, r)
    return sem


def addsub(sub=False, carry=False, imm=None, flags=False):
    def sem(k, f, M):
        x = M.RO(f.n)
        y = imm(k, f) if imm else M.RO(f.m)
        if sub:
            y = k.inv32(y)
        c = M.F('C') if carry else (1 if sub else 0)
        r, co, ov = k.add_c(x, y, c)
        M.w(f.d, r)
        if flags:
            nz(k, M, r, C=co, V=ov)
    return sem


def rsub(imm, flags):
    def sem(k, f, M):
        r, co, ov = k.add_c(k.inv32(M.R(f.n)), imm(k, f), 1)
        M.w(f.d, r)
        g = flags(k, f)
        M.flags_if(g, N=k.bit(r, 31), Z=k.eq(r, 0), C=co, V=ov)
    return sem


def shiftreg(kind):
    def sem(k, f, M):
        amt = k.field(M.R(f.m), 0, 8)
        r, c = k.shift_c(M.R(f.n), kind, amt, M.F('C'))
        M.w(f.d, r)
        nz(k, M, r, C=c)
    return sem


def shiftimm(kind):
    def sem(k, f, M):
        amt = f.imm5
        if kind in ('LSR', 'ASR'):
            amt = k.ite(k.eq(amt, 0), 32, amt)
        r, c = k.shift_c(M.R(f.n), kind, amt, M.F('C'))
        M.w(f.d, r)
        nz(k, M, r, C=c)
    return sem


def shifted(k, f, M, v):
    """Second operand of a shifted-register encoding: (value, carry)."""
    m = k.m
    res, carry = None, 0
    for g, kind, amt in k.imm_shift(f.type, k.cat((f.imm3, 3), (f.imm2, 2))):
        r, c = k.shift_c(v, kind, amt, M.F('C'))
        res = r if res is None else k.ite(g, r, res)
        carry = m.or_(carry, m.and_(g, c))
    return res, carry


def i12(k, f):
    return k.cat((f.i, 1), (f.imm3, 3), (f.imm8, 8))


def i12x(k, f):
    return k.expand_imm(i12(k, f))[0]


def cmp_(k, M, x, y, neg):
    r, co, ov = k.add_c(x, k.inv32(y) if neg else y, 1 if neg else 0)
    nz(k, M, r, C=co, V=ov)


def mul(flags):
    def sem(k, f, M):
        r = k.mod32(k.N.mul(M.R(f.n), M.R(f.m)))
        M.w(f.d, r)
        if flags:
            nz(k, M, r)
    return sem


def extend(w, signed, rot=None):
    def sem(k, f, M):
        v = M.R(f.m)
        if rot:
            v = k.shift_c(v, 'ROR', k.N.mulc(f.rotate, 8), 0)[0]
        v = k.field(v, 0, w)
        M.w(f.d, k.sx(v, w) if signed else v)
    return sem


def rev(kind):
    def sem(k, f, M):
        b = k.bits(M.R(f.m), 32)
        B = [b[8 * i:8 * i + 8] for i in range(4)]
        if kind == 'rev':
            r = B[3] + B[2] + B[1] + B[0]
        elif kind == 'rev16':
            r = B[1] + B[0] + B[3] + B[2]
        else:
            r = B[1] + B[0] + [B[0][7]] * 16
        M.w(f.d, k.fb(r))
    return sem


def adr(imm, add=True):
    def sem(k, f, M):
        base = k.N.mulc(k.N.shr(M.pc4, 2), 4)
        v = imm(k, f)
        M.w(f.d, k.mod32(k.N.add(base, v) if add else k.N.sub(base, v)))
    return sem


def adr_rel(imm, add=True):
    """Offset of the label from the instruction's address."""
    def rel(k, f, addr):
        base = k.N.mulc(k.N.shr(k.N.add(addr, 4), 2), 4)
        v = imm(k, f)
        return k.N.sub(k.N.add(base, v) if add else k.N.sub(base, v), addr)
    return rel


def ext(k, v, size, signed):
    if size == 32:
        return v
    return k.sx(v, size) if signed else v


def load(size, addr, signed=False):
    def sem(k, f, M):
        v = M.load(addr(k, f, M), size)
        M.w(f.t, ext(k, v, size, signed))
    return sem


def store(size, addr):
    def sem(k, f, M):
        M.store(addr(k, f, M), k.field(M.R(f.t), 0, size), size)
    return sem


def a_reg(k, f, M):
    return k.mod32(k.N.add(M.R(f.n), M.R(f.m)))


def a_regshift(k, f, M):
    r, _ = k.shift_c(M.R(f.m), 'LSL', f.imm2, 0)
    return k.mod32(k.N.add(M.R(f.n), r))


def a_imm(scale):
    def addr(k, f, M):
        return k.mod32(k.N.add(M.R(f.n), k.N.mulc(f.imm5, scale)))
    return addr


def a_sp(k, f, M):
    return k.mod32(k.N.add(M.R(13), k.N.mulc(f.imm8, 4)))


def a_lit(imm, add=None):
    def addr(k, f, M):
        base = k.N.mulc(k.N.shr(M.pc4, 2), 4)
        v = imm(k, f)
        up = k.mod32(k.N.add(base, v))
        if add is None:
            return up
        dn = k.mod32(k.N.sub(base, v))
        return k.ite(add(k, f), up, dn)
    return addr


def lowmulti(k, regs, M, base, fn):
    """fn(register, address, guard) for each listed register, ascending."""
    addr = base
    for r, g in enumerate(regs):
        if g == 0:
            continue
        fn(r, addr, g)
        addr = k.ite(g, k.mod32(k.N.add(addr, 4)), addr)


def push(regs):
    def sem(k, f, M):
        rs = regs(k, f)
        base = k.mod32(k.N.sub(M.R(13), k.N.mulc(k.count(rs), 4)))
        lowmulti(k, rs, M, base, lambda r, a, g: M.store(a, M.R0(r), 32, g))
        M.w(13, base)
    return sem


def pop(regs):
    def sem(k, f, M):
        rs = regs(k, f)
        base = M.R(13)
        got = []
        lowmulti(k, rs, M, base, lambda r, a, g: got.append((r, M.load(a, 32, g), g)))
        M.w(13, k.mod32(k.N.add(base, k.N.mulc(k.count(rs), 4))))
        for r, v, g in got:
            M.w(r, v, g)
    return sem


def ldm(regs, wback):
    def sem(k, f, M):
        rs = regs(k, f)
        base = M.R(f.n)
        got = []
        lowmulti(k, rs, M, base, lambda r, a, g: got.append((r, M.load(a, 32, g), g)))
        wb = wback(k, f)
        if wb:
            M.w(f.n, k.mod32(k.N.add(base, k.N.mulc(k.count(rs), 4))), wb)
        for r, v, g in got:
            M.w(r, v, g)
    return sem


def stm(regs, wback):
    def sem(k, f, M):
        rs = regs(k, f)
        base = M.R(f.n)
        lowmulti(k, rs, M, base, lambda r, a, g: M.store(a, M.R0(r), 32, g))
        wb = wback(k, f)
        if wb:
            M.w(f.n, k.mod32(k.N.add(base, k.N.mulc(k.count(rs), 4))), wb)
    return sem


def in_list(k, f, n, rs):
    """Node: register n (symbolic) is listed."""
    return k.m.any_([k.m.and_(k.eq(n, r), g) for r, g in enumerate(rs) if g])


def nothing(k, f, M):
    pass


def noops(k, f):
    return []


def cond_node(k, M, code):
    m = k.m
    N, Z, C, V = (M.F(x) for x in 'NZCV')
    base = [Z, C, N, V, m.and_(C, m.not_(Z)), m.not_(m.xor(N, V)),
            m.and_(m.not_(Z), m.not_(m.xor(N, V)))][code >> 1]
    return m.not_(base) if code & 1 else base


# ------------------------------------------------------------ 16-bit rows ----
for i, kind in enumerate(('LSL', 'LSR', 'ASR')):
    def _ops(k, f, kind=kind):
        amt = f.imm5 if kind == 'LSL' else k.ite(k.eq(f.imm5, 0), 32, f.imm5)
        return [k.reg(f.d), k.reg(f.n), k.imm(amt)]
    row(kind.lower() + 's:imm', '000 %s imm5(5) n(3) d(3)' % format(i, '02b'), ops=_ops, sem=shiftimm(kind),
        kind='shift', undef=(lambda k, f: k.eq(f.imm5, 0)) if i == 0 else None)


def _movs_reg(k, f, M):
    r = M.R(f.m)
    M.w(f.d, r)
    nz(k, M, r)


row('movs:reg', '000 00 00000 m(3) d(3)', ops=regs('d', 'm'), sem=_movs_reg, kind='dp')
for i, (nm, sub) in enumerate((('adds', False), ('subs', True))):
    row(nm + ':reg', '000 11 0 %d m(3) n(3) d(3)' % i, ops=regs('d', 'n', 'm'), sem=addsub(sub, flags=True), kind='dp')
    row(nm + ':imm3', '000 11 1 %d imm3(3) n(3) d(3)' % i, sem=addsub(sub, imm=lambda k, f: f.imm3, flags=True),
        ops=lambda k, f: [k.reg(f.d), k.reg(f.n), k.imm(f.imm3)], kind='dp')
    row(nm + ':imm8', '001 1%d dn(3) imm8(8)' % i, sem=addsub(sub, imm=lambda k, f: f.imm8, flags=True),
        ops=lambda k, f: [k.reg(f.dn), k.imm(f.imm8)], kind='dp')


def _movs_imm(k, f, M):
    M.w(f.d, f.imm8)
    nz(k, M, f.imm8)


row('movs:imm8', '001 00 d(3) imm8(8)', ops=lambda k, f: [k.reg(f.d), k.imm(f.imm8)], sem=_movs_imm, kind='dp')
row('cmp:imm8', '001 01 n(3) imm8(8)', ops=lambda k, f: [k.reg(f.n), k.imm(f.imm8)],
    sem=lambda k, f, M: cmp_(k, M, M.R(f.n), f.imm8, True), kind='dp')

for code, nm, sem, kind in ((0, 'ands', bitop('and'), 'dp'), (1, 'eors', bitop('eor'), 'dp'),
                            (2, 'lsls', shiftreg('LSL'), 'shift'), (3, 'lsrs', shiftreg('LSR'), 'shift'),
                            (4, 'asrs', shiftreg('ASR'), 'shift'),
                            (5, 'adcs', addsub(False, True, flags=True), 'dp'),
                            (6, 'sbcs', addsub(True, True, flags=True), 'dp'),
                            (7, 'rors', shiftreg('ROR'), 'shift'), (12, 'orrs', bitop('orr'), 'dp'),
                            (14, 'bics', bitop('bic'), 'dp')):
    row(nm + ':dp', '010000 %s m(3) dn(3)' % format(code, '04b'), ops=regs('dn', 'm'), sem=sem, kind=kind)


def _tst(k, f, M):
    r = k.N.band(M.R(f.n), M.R(f.m))
    nz(k, M, r)


def _mvns(k, f, M):
    r = k.inv32(M.R(f.m))
    M.w(f.d, r)
    nz(k, M, r)


row('tst', '010000 1000 m(3) n(3)', ops=regs('n', 'm'), sem=_tst, kind='dp')
row('rsbs', '010000 1001 n(3) d(3)', ops=lambda k, f: [k.reg(f.d), k.reg(f.n), k.const('#0')],
    sem=rsub(lambda k, f: 0, lambda k, f: 1), kind='dp')
row('cmp:reg', '010000 1010 m(3) n(3)', ops=regs('n', 'm'),
    sem=lambda k, f, M: cmp_(k, M, M.R(f.n), M.R(f.m), True), kind='dp')
row('cmn:reg', '010000 1011 m(3) n(3)', ops=regs('n', 'm'),
    sem=lambda k, f, M: cmp_(k, M, M.R(f.n), M.R(f.m), False), kind='dp')
row('muls', '010000 1101 n(3) dm(3)', ops=regs('dm', 'n', 'dm'), sem=mul(True), kind='dp')
row('mvns', '010000 1111 m(3) d(3)', ops=regs('d', 'm'), sem=_mvns, kind='dp')


def _dn4(k, f):
    return k.cat((f.D, 1), (f.d3, 3))


class With(object):
    """Fields with additional derived ones."""

    def __init__(self, f, **kw):
        self.__dict__.update(f.__dict__)
        self.__dict__.update(kw)


def _add_hi(k, f, M):
    d = _dn4(k, f)
    addsub()(k, With(f, d=d, n=d), M)


row('add:hi', '010001 00 D m(4) d3(3)', ops=lambda k, f: [k.reg(_dn4(k, f)), k.reg(f.m)], sem=_add_hi, kind='dp',
    undef=lambda k, f: k.m.or_(k.eq(f.m, 13), k.eq(_dn4(k, f), 13)),
    may=lambda k, f: k.m.and_(k.eq(f.m, 15), k.eq(_dn4(k, f), 15)))
row('add:sp,reg1', '010001 00 D 1101 d3(3)', ops=lambda k, f: [k.reg(_dn4(k, f)), k.reg(13), k.reg(_dn4(k, f))],
    sem=lambda k, f, M: addsub()(k, With(f, d=_dn4(k, f), n=13, m=_dn4(k, f)), M), kind='dp')
row('add:sp,reg2', '010001 00 1 m(4) 101', ops=lambda k, f: [k.reg(13), k.reg(f.m)],
    sem=lambda k, f, M: addsub()(k, With(f, d=13, n=13), M), kind='dp', undef=lambda k, f: k.eq(f.m, 13))
row('cmp:hi', '010001 01 D m(4) d3(3)', ops=lambda k, f: [k.reg(_dn4(k, f)), k.reg(f.m)],
    sem=lambda k, f, M: cmp_(k, M, M.R(_dn4(k, f)), M.R(f.m), True), kind='dp',
    may=lambda k, f: k.m.any_([k.eq(f.m, 15), k.eq(_dn4(k, f), 15),
                               k.m.and_(k.N.lt(_dn4(k, f), 8), k.N.lt(f.m, 8))]))
row('mov:hi', '010001 10 D m(4) d3(3)', ops=lambda k, f: [k.reg(_dn4(k, f)), k.reg(f.m)],
    sem=lambda k, f, M: M.w(_dn4(k, f), M.RO(f.m)), kind='dp')


def _bx(link):
    def sem(k, f, M):
        v = M.RO(f.m)
        tgt = k.fb([0] + k.bits(v, 32)[1:])
        M.branch(tgt)
        if link:
            M.w(14, k.fb([1] + k.bits(k.mod32(k.N.add(M.pc, 2)), 32)[1:]))
    return sem


row('bx', '010001 11 0 m(4) 000', ops=regs('m'), sem=_bx(False), kind='branch')
row('blx', '010001 11 1 m(4) 000', ops=regs('m'), sem=_bx(True), kind='branch', may=lambda k, f: k.eq(f.m, 15))


def _lit8(k, f):
    return k.N.mulc(f.imm8, 4)


row('ldr:lit', '01001 t(3) imm8(8)', ops=lambda k, f: [k.reg(f.t), k.mem([k.reg(15), k.imm(_lit8(k, f))])],
    sem=load(32, a_lit(_lit8)), kind='load')
for code, nm, size, sg in ((0, 'str', 32, 0), (1, 'strh', 16, 0), (2, 'strb', 8, 0), (3, 'ldrsb', 8, 1),
                           (4, 'ldr', 32, 0), (5, 'ldrh', 16, 0), (6, 'ldrb', 8, 0), (7, 'ldrsh', 16, 1)):
    st = nm.startswith('st')
    row(nm + ':reg', '0101 %s m(3) n(3) t(3)' % format(code, '03b'),
        ops=lambda k, f: [k.reg(f.t), k.mem([k.reg(f.n), k.reg(f.m)])],
        sem=store(size, a_reg) if st else load(size, a_reg, bool(sg)), kind='store' if st else 'load')
for code, nm, size in (('011 00', 'str', 32), ('011 01', 'ldr', 32), ('011 10', 'strb', 8), ('011 11', 'ldrb', 8),
                       ('100 00', 'strh', 16), ('100 01', 'ldrh', 16)):
    st = nm.startswith('st')
    sc = size // 8
    row(nm + ':imm', code + ' imm5(5) n(3) t(3)',
        ops=lambda k, f, sc=sc: [k.reg(f.t), k.mem([k.reg(f.n), k.imm(k.N.mulc(f.imm5, sc), hide=True)])],
        sem=store(size, a_imm(sc)) if st else load(size, a_imm(sc)), kind='store' if st else 'load')
for code, nm in ((0, 'str'), (1, 'ldr')):
    row(nm + ':sp', '1001 %d t(3) imm8(8)' % code,
        ops=lambda k, f: [k.reg(f.t), k.mem([k.reg(13), k.imm(_lit8(k, f), hide=True)])],
        sem=store(32, a_sp) if code == 0 else load(32, a_sp), kind='store' if code == 0 else 'load')
row('adr', '1010 0 d(3) imm8(8)', ops=lambda k, f: [k.reg(f.d), k.label(adr_rel(_lit8)(k, f, f.addr), f.addr)],
    sem=adr(_lit8), kind='adr')
row('add:sp,imm8', '1010 1 d(3) imm8(8)', ops=lambda k, f: [k.reg(f.d), k.reg(13), k.imm(_lit8(k, f))],
    sem=lambda k, f, M: addsub(imm=_lit8)(k, With(f, n=13), M), kind='dp')
for code, nm in ((0, 'add'), (1, 'sub')):
    row(nm + ':sp,imm7', '1011 0000 %d imm7(7)' % code,
        ops=lambda k, f: [k.reg(13), k.imm(k.N.mulc(f.imm7, 4))],
        sem=lambda k, f, M, code=code: addsub(bool(code), imm=lambda k, f: k.N.mulc(f.imm7, 4))(
            k, With(f, n=13, d=13), M), kind='dp')
for code, nm, w, sg in ((0, 'sxth', 16, 1), (1, 'sxtb', 8, 1), (2, 'uxth', 16, 0), (3, 'uxtb', 8, 0)):
    row(nm, '1011 0010 %s m(3) d(3)' % format(code, '02b'), ops=regs('d', 'm'), sem=extend(w, sg), kind='dp')


def _push1(k, f):
    return k.bits(f.list, 8) + [0] * 6 + [k.bit(f.M, 0), 0]


def _pop1(k, f):
    return k.bits(f.list, 8) + [0] * 7 + [k.bit(f.P, 0)]


def none_listed(regs, least=1):
    def f(k, f_):
        return k.N.lt(k.count(regs(k, f_)), least)
    return f


row('push', '1011 0 10 M list(8)', ops=lambda k, f: [k.reglist(_push1(k, f))], sem=push(_push1), kind='multi',
    must=none_listed(_push1))
row('pop', '1011 1 10 P list(8)', ops=lambda k, f: [k.reglist(_pop1(k, f))], sem=pop(_pop1), kind='multi',
    must=none_listed(_pop1))


def _cps(k, f, M):
    v = f.im
    M.w(0xff, v, k.bit(f.I, 0))
    M.w(0xfd, v, k.bit(f.F, 0))


def _cps_ops(k, f):
    m = k.m
    I, F = k.bit(f.I, 0), k.bit(f.F, 0)
    return [k.cases([('i', m.and_(I, m.not_(F))), ('f', m.and_(F, m.not_(I))), ('if', m.and_(I, F))])]


row('cps', '1011 0110 011 im 00 I F', mnem=lambda k, f: [('cpsie', k.notn(k.bit(f.im, 0))), ('cpsid', k.bit(f.im, 0))],
    ops=_cps_ops, sem=_cps, kind='sys', must=lambda k, f: k.m.and_(k.eq(f.I, 0), k.eq(f.F, 0)))
for code, nm in ((0, 'rev'), (1, 'rev16'), (3, 'revsh')):
    row(nm, '1011 1010 %s m(3) d(3)' % format(code, '02b'), ops=regs('d', 'm'), sem=rev(nm), kind='dp')
row('bkpt', '1011 1110 imm8(8)', ops=lambda k, f: [k.imm(f.imm8)], sem=nothing, kind='sys')
for code, nm in enumerate(('nop', 'yield', 'wfe', 'wfi', 'sev')):
    row(nm, '1011 1111 %s 0000' % format(code, '04b'), ops=noops, sem=nothing, kind='sys')


def _list8(k, f):
    return k.bits(f.list, 8) + [0] * 8


def _one(k, f):
    return 1


def _ldm1_wb(k, f):
    return k.notn(in_list(k, f, f.n, _list8(k, f)))


row('stm', '1100 0 n(3) list(8)', ops=lambda k, f: [k.reg(f.n, '!'), k.reglist(_list8(k, f))],
    sem=stm(_list8, _one), kind='multi', must=none_listed(_list8))
row('ldm', '1100 1 n(3) list(8)', ops=lambda k, f: [k.reg_wb(f.n, _ldm1_wb(k, f)), k.reglist(_list8(k, f))],
    sem=ldm(_list8, _ldm1_wb), kind='multi', must=none_listed(_list8))


def _b_rel(k, f):
    return k.signed(k.N.mulc(f.imm8, 2), 9)


def _bcond(k, f, M):
    m = k.m
    taken = m.any_([m.and_(k.eq(f.cond, c), cond_node(k, M, c)) for c in range(14)])
    M.branch(k.mod32(k.N.add(M.pc4, _b_rel(k, f))), taken)


def label(rel):
    def ops(k, f):
        return [k.label(k.N.add(rel(k, f), 4), f.addr)]
    return ops


row('b:cond', '1101 cond(4) imm8(8)', mnem=lambda k, f: [('b' + c, k.eq(f.cond, i)) for i, c in enumerate(CONDS)],
    ops=label(_b_rel), sem=_bcond, kind='branch', undef=lambda k, f: k.isin(f.cond, (14, 15)))
row('udf', '1101 1110 imm8(8)', ops=lambda k, f: [k.imm(f.imm8)], sem=nothing, kind='sys')
row('svc', '1101 1111 imm8(8)', ops=lambda k, f: [k.imm(f.imm8)], sem=nothing, kind='sys')


def _b2_rel(k, f):
    return k.signed(k.N.mulc(f.imm11, 2), 12)


row('b:uncond', '11100 imm11(11)', mnem='b', ops=label(_b2_rel),
    sem=lambda k, f, M: M.branch(k.mod32(k.N.add(M.pc4, _b2_rel(k, f)))), kind='branch')

# ------------------------------------------------------------ 32-bit rows ----


def sw(base):
    return lambda k, f: [(base + 's.w', k.bit(f.S, 0)), (base + '.w', k.notn(k.bit(f.S, 0)))]


row('rsb.w', '11110 i 0 1110 S n(4)', '0 imm3(3) d(4) imm8(8)', mnem=sw('rsb'),
    ops=lambda k, f: [k.reg(f.d), k.reg(f.n), k.imm(i12x(k, f))], sem=rsub(i12x, lambda k, f: k.bit(f.S, 0)), kind='dp',
    must=lambda k, f: bad(k, f.d, f.n))
row('mul', '11111 0110 000 n(4)', '1111 d(4) 0000 m(4)', ops=regs('d', 'n', 'm'), sem=mul(False), kind='dp',
    must=lambda k, f: bad(k, f.d, f.n, f.m))
for code, add in (('10101', False), ('10000', True)):
    row('adr.w:%s' % ('add' if add else 'sub'), '11110 i %s 0 1111' % code, '0 imm3(3) d(4) imm8(8)',
        ops=lambda k, f, add=add: [k.reg(f.d), k.label(adr_rel(i12, add)(k, f, f.addr), f.addr)],
        sem=adr(i12, add), kind='adr', may=lambda k, f: bad(k, f.d))


def _ext_ops(k, f):
    return [k.reg(f.d), k.reg(f.m), k.shift([(1, 'ROR', k.N.mulc(f.rotate, 8))], hide_zero=True)]


for code, nm, w, sg in (('000', 'sxth.w', 16, 1), ('100', 'sxtb.w', 8, 1), ('001', 'uxth.w', 16, 0),
                        ('101', 'uxtb.w', 8, 0)):
    row(nm, '11111 010 0 %s 1111' % code, '1111 d(4) 1 0 rotate(2) m(4)', ops=_ext_ops, sem=extend(w, sg, True),
        kind='dp', may=lambda k, f: bad(k, f.d, f.m))
for code, nm in (('000', 'rev'), ('001', 'rev16'), ('011', 'revsh')):
    row(nm + '.w', '11111 010 1 001 m(4)', '1111 d(4) 1 %s m2(4)' % code, ops=regs('d', 'm'), sem=rev(nm), kind='dp',
        must=lambda k, f: k.notn(k.eq(f.m, f.m2)), may=lambda k, f: bad(k, f.d, f.m))


def _mov_w(k, f, M):
    r = M.R(f.m)
    M.w(f.d, r)
    M.flags_if(k.bit(f.S, 0), N=k.bit(r, 31), Z=k.eq(r, 0))


row('mov.w:reg', '11101 01 0010 S 1111', '0 000 d(4) 0000 m(4)', mnem=sw('mov'), ops=regs('d', 'm'), sem=_mov_w,
    kind='dp', may=lambda k, f: bad(k, f.d, f.m))


def _mov_wi(k, f, M):
    r, rot, c = k.expand_imm(i12(k, f))
    M.w(f.d, r)
    M.flags_if(k.bit(f.S, 0), N=k.bit(r, 31), Z=k.eq(r, 0))
    M.flags_if(k.m.and_(k.bit(f.S, 0), rot), C=c)


row('mov.w:imm', '11110 i 0 0010 S 1111', '0 imm3(3) d(4) imm8(8)', mnem=sw('mov'),
    ops=lambda k, f: [k.reg(f.d), k.imm(i12x(k, f))], sem=_mov_wi, kind='dp', may=lambda k, f: bad(k, f.d))


def _i16(k, f):
    return k.cat((f.imm4, 4), (f.i, 1), (f.imm3, 3), (f.imm8, 8))


row('movw', '11110 i 10 0 1 0 0 imm4(4)', '0 imm3(3) d(4) imm8(8)', ops=lambda k, f: [k.reg(f.d), k.imm(_i16(k, f))],
    sem=lambda k, f, M: M.w(f.d, _i16(k, f)), kind='dp', may=lambda k, f: bad(k, f.d))


def _mvn_w(k, f, M):
    v, c = shifted(k, f, M, M.R(f.m))
    r = k.inv32(v)
    M.w(f.d, r)
    M.flags_if(k.bit(f.S, 0), N=k.bit(r, 31), Z=k.eq(r, 0), C=c)


def _shift_ops(k, f, hide):
    return k.shift(k.imm_shift(f.type, k.cat((f.imm3, 3), (f.imm2, 2))), hide_zero=hide)


row('mvn.w', '11101 01 0011 S 1111', '0 imm3(3) d(4) imm2(2) type(2) m(4)', mnem=sw('mvn'),
    ops=lambda k, f: [k.reg(f.d), k.reg(f.m), _shift_ops(k, f, False)], sem=_mvn_w, kind='shift',
    may=lambda k, f: bad(k, f.d, f.m))
row('cmp.w', '11110 i 0 1101 1 n(4)', '0 imm3(3) 1111 imm8(8)', ops=lambda k, f: [k.reg(f.n), k.imm(i12x(k, f))],
    sem=lambda k, f, M: cmp_(k, M, M.R(f.n), i12x(k, f), True), kind='dp', may=lambda k, f: k.eq(f.n, 15))
row('cmn:imm', '11110 i 0 1000 1 n(4)', '0 imm3(3) 1111 imm8(8)', ops=lambda k, f: [k.reg(f.n), k.imm(i12x(k, f))],
    sem=lambda k, f, M: cmp_(k, M, M.R(f.n), i12x(k, f), False), kind='dp', may=lambda k, f: k.eq(f.n, 15))


def _tst_w(k, f, M):
    v, c = shifted(k, f, M, M.R(f.m))
    r = k.N.band(M.R(f.n), v)
    nz(k, M, r, C=c)


row('tst.w', '11101 01 0000 1 n(4)', '0 imm3(3) 1111 imm2(2) type(2) m(4)',
    ops=lambda k, f: [k.reg(f.n), k.reg(f.m), _shift_ops(k, f, True)], sem=_tst_w, kind='shift',
    must=lambda k, f: bad(k, f.n, f.m))


def _bl_rel(k, f):
    m = k.m
    S = k.bit(f.S, 0)
    I1 = m.not_(m.xor(k.bit(f.J1, 0), S))
    I2 = m.not_(m.xor(k.bit(f.J2, 0), S))
    bits = [0] + k.bits(f.imm11, 11) + k.bits(f.imm10, 10) + [I2, I1, S]
    return k.N.signed_from_bits(bits)


def _bl(k, f, M):
    M.branch(k.mod32(k.N.add(M.pc4, _bl_rel(k, f))))
    M.w(14, k.fb([1] + k.bits(M.pc4, 32)[1:]))


row('bl', '11110 S imm10(10)', '11 J1 1 J2 imm11(11)', ops=label(_bl_rel), sem=_bl, kind='branch')


def _regshift_ops(k, f):
    return [k.reg(f.t), k.mem([k.reg(f.n), k.reg(f.m), k.shift([(1, 'LSL', f.imm2)])])]


for code, nm, size, sg in (('0 0 00 1', 'ldrb.w', 8, 0), ('0 0 01 1', 'ldrh.w', 16, 0), ('0 0 10 1', 'ldr.w', 32, 0),
                           ('1 0 00 1', 'ldrsb.w', 8, 1), ('1 0 01 1', 'ldrsh.w', 16, 1), ('0 0 00 0', 'strb.w', 8, 0),
                           ('0 0 01 0', 'strh.w', 16, 0), ('0 0 10 0', 'str.w', 32, 0)):
    st = nm.startswith('st')
    und = lambda k, f: k.eq(f.n, 15)
    if not st and size != 32:
        und = lambda k, f: k.m.or_(k.eq(f.n, 15), k.eq(f.t, 15))     # literal, or a memory hint
    row(nm + ':reg', '11111 00 ' + code + ' n(4)', 't(4) 0 00000 imm2(2) m(4)', ops=_regshift_ops,
        sem=store(size, a_regshift) if st else load(size, a_regshift, bool(sg)), kind='store' if st else 'load',
        undef=und, may=(lambda k, f: k.m.or_(bad(k, f.m), k.eq(f.t, 15))) if st else
        (lambda k, f: k.m.or_(bad(k, f.m), k.eq(f.t, 13))))


def _lit12(k, f):
    return f.imm12


def _lit_ops(k, f):
    return [k.reg(f.t), k.mem([k.reg(15), k.imm(k.ite(k.bit(f.U, 0), f.imm12, k.N.neg(f.imm12)), hide=True)])]


for code, nm, size, sg in (('0 U 10', 'ldr.w', 32, 0), ('0 U 01', 'ldrh.w', 16, 0), ('0 U 00', 'ldrb.w', 8, 0),
                           ('1 U 01', 'ldrsh.w', 16, 1), ('1 U 00', 'ldrsb.w', 8, 1)):
    row(nm + ':lit', '11111 00 ' + code + ' 1 1111', 't(4) imm12(12)', ops=_lit_ops,
        sem=load(size, a_lit(_lit12, lambda k, f: k.bit(f.U, 0)), bool(sg)), kind='load',
        undef=lambda k, f: k.eq(f.t, 15), may=lambda k, f: k.eq(f.t, 13))


def _push2(k, f):
    return k.bits(f.list, 13) + [0, k.bit(f.M, 0), 0]


def _pop2(k, f):
    return k.bits(f.list, 13) + [0, k.bit(f.M, 0), k.bit(f.P, 0)]


def _single(k, f):
    return [k.eq(f.t, i) for i in range(16)]


def _pop2_bad(k, f):
    return k.m.or_(none_listed(_pop2, 2)(k, f), k.m.and_(k.bit(f.P, 0), k.bit(f.M, 0)))


row('push.w', '11101 00 100 1 0 1101', '0 M 0 list(13)', ops=lambda k, f: [k.reglist(_push2(k, f))], sem=push(_push2),
    kind='multi', must=none_listed(_push2, 2))
row('push.w:one', '11111 00 0 0 10 0 1101', 't(4) 1 101 00000100', ops=lambda k, f: [k.reglist(_single(k, f))],
    sem=push(_single), kind='multi', must=lambda k, f: bad(k, f.t))
row('pop.w', '11101 00 010 1 1 1101', 'P M 0 list(13)', ops=lambda k, f: [k.reglist(_pop2(k, f))], sem=pop(_pop2),
    kind='multi', must=_pop2_bad)
row('pop.w:one', '11111 00 0 0 10 1 1101', 't(4) 1 011 00000100', ops=lambda k, f: [k.reglist(_single(k, f))],
    sem=pop(_single), kind='multi', may=lambda k, f: k.eq(f.t, 13))


def _W(k, f):
    return k.bit(f.W, 0)


row('stm.w', '11101 00 010 W 0 n(4)', '0 M 0 list(13)',
    ops=lambda k, f: [k.reg_wb(f.n, _W(k, f)), k.reglist(_push2(k, f))], sem=stm(_push2, _W), kind='multi',
    must=lambda k, f: k.m.any_([k.eq(f.n, 15), none_listed(_push2, 2)(k, f),
                                k.m.and_(_W(k, f), in_list(k, f, f.n, _push2(k, f)))]))
row('ldm.w', '11101 00 010 W 1 n(4)', 'P M 0 list(13)',
    ops=lambda k, f: [k.reg_wb(f.n, _W(k, f)), k.reglist(_pop2(k, f))], sem=ldm(_pop2, _W), kind='multi',
    undef=lambda k, f: k.m.and_(_W(k, f), k.eq(f.n, 13)),
    must=lambda k, f: k.m.any_([k.eq(f.n, 15), _pop2_bad(k, f),
                                k.m.and_(_W(k, f), in_list(k, f, f.n, _pop2(k, f)))]))

# ------------------------------------------------------ system registers ----
SYSM = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR', 7: 'IEPSR', 8: 'MSP', 9: 'PSP',
        16: 'PRIMASK', 17: 'BASEPRI', 18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}


def sysm_undefined(k, v):
    return k.notn(k.isin(v, sorted(SYSM)))


def _sysm_text(k, f, mask=None):
    m = k.m
    items = []
    for v, nm in sorted(SYSM.items()):
        g = k.eq(f.sysm, v)
        if mask is not None and v < 4:
            for mv, suf in ((2, '_nzcvq'), (1, '_g'), (3, '_nzcvqg')):
                items.append((nm + suf, m.and_(g, k.eq(mask, mv))))
        else:
            items.append((nm, g))
    return k.cases(items)


def _mrs(k, f, M):
    m = k.m
    s = k.bits(f.sysm, 8)
    x = k.bits(M.R(16), 32)
    priv = m.not_(k.bit(M.R(0xfc), 0))
    out = [0] * 32

    def put(g, lo, bits):
        for i, b in enumerate(bits):
            out[lo + i] = m.or_(out[lo + i], m.and_(g, b))
    hi = k.fb(s[3:8])
    psr = k.eq(hi, 0)
    put(m.and_(psr, s[0]), 0, x[0:9])
    put(m.and_(psr, m.not_(s[2])), 27, x[27:32])
    for v, reg, n in ((8, 17, 32), (9, 18, 32), (16, 0xff, 1), (17, 0xfe, 8), (18, 0xfe, 8), (19, 0xfd, 1)):
        put(m.and_(k.eq(f.sysm, v), priv), 0, k.bits(M.R(reg), 32)[:n])
    put(k.eq(f.sysm, 20), 0, k.bits(M.R(0xfc), 32)[:2])
    M.w(f.d, k.fb(out))


row('mrs', '11110 0 1111 1 0 1111', '10 0 0 d(4) sysm(8)', ops=lambda k, f: [k.reg(f.d), _sysm_text(k, f)], sem=_mrs,
    kind='sys', must=lambda k, f: k.m.or_(bad(k, f.d), sysm_undefined(k, f.sysm)))
row('msr', '11110 0 1110 0 0 n(4)', '10 0 0 mask(2) 0 0 sysm(8)',
    ops=lambda k, f: [_sysm_text(k, f, f.mask), k.reg(f.n)], sem=nothing, kind='msr',
    must=lambda k, f: k.m.any_([k.eq(f.mask, 0), k.m.and_(k.notn(k.eq(f.mask, 2)), k.notn(k.N.lt(f.sysm, 4))),
                                bad(k, f.n), sysm_undefined(k, f.sysm)]))


def _barrier(k, f):
    items = [('sy' if v == 15 else '#%d' % v, k.eq(f.option, v)) for v in range(16)]
    return [k.cases(items)]


for code, nm in (('0100', 'dsb'), ('0101', 'dmb'), ('0110', 'isb')):
    row(nm, '11110 0 111 01 1 1111', '10 0 0 1111 %s option(4)' % code, ops=_barrier, sem=nothing, kind='sys')
row('udf.w', '111 10 1111111 imm4(4)', '1 010 imm12(12)',
    ops=lambda k, f: [k.imm(k.cat((f.imm4, 4), (f.imm12, 12)))], sem=nothing, kind='sys')
