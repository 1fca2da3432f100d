"""Vocabulary of the reference descriptions: operand texts and architectural operations on abstract values."""
from absint.num import SI
from absint import text as T

REGNAMES = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc']
CONDS = ['eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le']
M32 = 0xffffffff


class K(object):
    def __init__(self, I):
        self.I, self.N, self.m = I, I.N, I.m

    # ---- numbers
    def bits(self, a, w):
        return self.N.bits(a, w)

    def fb(self, bits):
        return self.N.from_bits(bits)

    def cat(self, *items):
        """(value, width) pairs, most significant first."""
        out = []
        for v, w in reversed(items):
            out.extend(self.bits(v, w))
        return self.fb(out)

    def field(self, a, lo, hi):
        return self.fb(self.bits(a, hi)[lo:hi])

    def bit(self, a, k):
        return self.bits(a, k + 1)[k]

    def mod32(self, a):
        return self.N.mod2(a, 32)

    def sx(self, a, w, to=32):
        b = self.bits(a, w)
        return self.fb(b + [b[-1]] * (to - w))

    def signed(self, a, w):
        return self.N.signed_from_bits(self.bits(a, w))

    def eq(self, a, b):
        return self.N.eq(a, b)

    def isin(self, a, vals):
        return self.m.any_([self.N.eq(a, v) for v in vals])

    def ite(self, g, a, b):
        return self.N.ite(g, a, b)

    def inv32(self, a):
        return self.N.sub(M32, a)

    def count(self, bits):
        return self.N.lin(0, [(b, 1) for b in bits])

    def notn(self, n):
        return self.m.not_(n)

    def expand_imm(self, i12):
        """(value, carry-out bit node or None where the carry is unchanged: (guard, node))"""
        b = self.bits(i12, 12)
        N, m = self.N, self.m
        imm8 = self.fb(b[:8])
        rotated = m.or_(b[10], b[11])
        val = None
        for code, pat in ((0, (1, 0, 0, 0)), (1, (1, 0, 1, 0)), (2, (0, 1, 0, 1)), (3, (1, 1, 1, 1))):
            v = []
            for use in pat:
                v += b[:8] if use else [0] * 8
            v = self.fb(v)
            g = self.eq(self.fb(b[8:10]), code)
            val = v if val is None else self.ite(g, v, val)
        unrot = b[:7] + [1] + [0] * 24
        amt = self.fb(b[7:12])
        rv = unrot
        rots = []
        for k in range(32):
            # bit k of ROR(unrot, amt)
            n = 0
            for a in range(8, 32):
                src = unrot[(k + a) % 32]
                if src:
                    n = m.or_(n, m.and_(self.eq(amt, a), src))
            rots.append(n)
        r = self.fb(rots)
        return self.ite(rotated, r, val), rotated, rots[31]

    def imm_shift(self, typ, imm5):
        """[(guard, kind, amount)] of an encoded immediate shift."""
        m = self.m
        z = self.eq(imm5, 0)
        out = []
        for code, kind in enumerate(('LSL', 'LSR', 'ASR', 'ROR')):
            g = self.eq(typ, code)
            if kind == 'LSL':
                out.append((g, 'LSL', imm5))
            elif kind == 'ROR':
                out.append((m.and_(g, z), 'RRX', 1))
                out.append((m.and_(g, m.not_(z)), 'ROR', imm5))
            else:
                out.append((g, kind, self.ite(z, 32, imm5)))
        return [(g, k, a) for g, k, a in out if g]

    def shift_c(self, v, kind, amount, cin):
        """(value bits SI, carry node) of the architecture's Shift_C on 32 bits."""
        m = self.m
        b = self.bits(v, 32)
        if kind == 'RRX':
            return self.fb(b[1:] + [cin]), b[0]
        vals = self.N.values(amount, 1, cap=300)
        out = [0] * 32
        carry = 0
        # group amounts by effect to keep the diagrams small
        eff = {}
        for a, g in vals:
            if a == 0:
                key = ('id',)
            elif kind == 'ROR':
                key = ('r', a % 32)
            elif kind == 'ASR':
                key = ('a', min(a, 32))
            else:
                key = ('s', min(a, 33))
            eff[key] = m.or_(eff.get(key, 0), g)
        for key, g in sorted(eff.items()):
            if key[0] == 'id':
                r, c = b, cin
            elif key[0] == 'r':
                a = key[1]
                r = b[a:] + b[:a]
                c = r[31]
            elif key[0] == 'a':
                a = key[1]
                ext = b + [b[31]] * 32
                r, c = ext[a:a + 32], ext[a - 1]
            else:
                a = key[1]
                if kind == 'LSL':
                    ext = [0] * a + b
                    r = ext[:32]
                    c = ext[32] if a <= 32 else 0
                else:
                    ext = b + [0] * 40
                    r, c = ext[a:a + 32], ext[a - 1]
            for k in range(32):
                if r[k]:
                    out[k] = m.or_(out[k], m.and_(g, r[k]))
            carry = m.or_(carry, m.and_(g, c))
        return self.fb(out), carry

    def add_c(self, x, y, cin):
        """AddWithCarry on 32 bits: (result, carry node, overflow node)."""
        N, m = self.N, self.m
        c = N.lin(0, [(cin, 1)])
        u = N.add(N.add(x, y), c)
        r = self.mod32(u)
        carry = m.not_(N.eq(r, u))
        s = N.add(N.add(self.signed(x, 32), self.signed(y, 32)), c)
        ov = m.not_(N.eq(self.signed(r, 32), s))
        return r, carry, ov

    # ---- texts: an operand is [(guard, text or None, (comments))]
    def reg(self, f, suffix=''):
        m = self.m
        if not isinstance(f, SI):
            return [(1, REGNAMES[f] + suffix, ())]
        vals = self.N.values(f, 1, cap=64)
        return [(1, T.mkmap(m, [(REGNAMES[v] + suffix, g) for v, g in vals]), ())]

    def reg_wb(self, f, wb):
        a = self.reg(f)[0][1]
        b = self.reg(f, '!')[0][1]
        return [(g, t, ()) for g, t in ((wb, b), (self.m.not_(wb), a)) if g]

    def num(self, v, spec='d'):
        return T.from_int(self.I, v, spec)

    def imm(self, v, hide=False):
        N, m = self.N, self.m
        z = N.eq(v, 0) if hide else 0
        big = N.lt(9, v)
        out = []
        if z:
            out.append((z, None, ()))
        t = T.concat(['#', self.num(v)])
        if big:
            c = T.concat(['0x', self.num(v, 'x')])
            out.append((m.and_(big, m.not_(z)), t, (c,)))
        small = m.and_(m.not_(big), m.not_(z))
        if small:
            out.append((small, t, ()))
        return out

    def label(self, rel, addr):
        """rel: signed offset from the instruction; addr: its address (both SI)."""
        tgt = self.mod32(self.N.add(rel, addr))
        return [(1, T.concat(['.', self.num(rel, '+d')]), (T.concat(['0x', self.num(tgt, 'x')]),))]

    def shift(self, cases, hide_zero=False):
        """cases: [(guard, kind, amount)]"""
        out = []
        for g, kind, amt in cases:
            z = self.eq(amt, 0) if hide_zero else 0
            t = T.concat(['%s #' % kind, self.num(amt)])
            gz = self.m.and_(g, z)
            if gz:
                out.append((gz, None, ()))
            g = self.m.and_(g, self.m.not_(z))
            if g:
                out.append((g, t, ()))
        return out

    def const(self, text):
        return [(1, text, ())]

    def cases(self, items):
        """[(guard, text, ())] from (text, guard)."""
        return [(1, T.mkmap(self.m, items), ())]

    def product(self, ops):
        cur = [(1, (), ())]
        for op in ops:
            nxt = []
            for g, ts, cs in cur:
                for h, t, c in op:
                    x = self.m.and_(g, h)
                    if x:
                        nxt.append((x, ts + ((t,) if t is not None else ()), cs + tuple(c)))
            cur = nxt
        return cur

    def mem(self, ops, wb=''):
        out = []
        for g, ts, cs in self.product(ops):
            parts = ['[']
            for i, t in enumerate(ts):
                if i:
                    parts.append(', ')
                parts.append(t)
            out.append((g, T.concat(parts + [']' + wb]), cs))
        return out

    def reglist(self, bits):
        """Operand cases by number of ranges: each range a map (first, last) -> name."""
        m = self.m
        n = len(bits)
        bits = list(bits) + [0]
        # dp[j] = {start or None: guard} while scanning
        starts = []
        for i in range(n):
            prev = bits[i - 1] if i else 0
            starts.append(m.and_(bits[i], m.not_(prev)))
        maxr = (n + 1) // 2
        ranges = [dict() for _ in range(maxr)]
        cnt = {0: 1}
        total = cnt
        for i in range(n):
            # number of starts strictly before i
            for e in range(i, n):
                full = m.all_(bits[i:e + 1])
                full = m.and_(full, m.not_(bits[e + 1]))
                full = m.and_(full, starts[i])
                if not full:
                    continue
                name = REGNAMES[i] if e == i else '%s-%s' % (REGNAMES[i], REGNAMES[e])
                for j, g in cnt.items():
                    x = m.and_(full, g)
                    if x and j < maxr:
                        ranges[j][name] = m.or_(ranges[j].get(name, 0), x)
            nxt = {}
            for j, g in cnt.items():
                for k, h in ((j, m.not_(starts[i])), (j + 1, starts[i])):
                    x = m.and_(g, h)
                    if x:
                        nxt[k] = m.or_(nxt.get(k, 0), x)
            cnt = nxt
        out = []
        for j, g in sorted(cnt.items()):
            parts = ['{']
            for r in range(j):
                if r:
                    parts.append(',')
                parts.append(T.mkmap(m, [(t, m.and_(h, g)) for t, h in ranges[r].items() if m.and_(h, g)]))
            out.append((g, T.concat(parts + ['}']), ()))
        return out


class Pattern(object):
    """Our own reading of a 16-bit pattern: digits, name, name(n) or name=bits, from bit 15 down."""

    def __init__(self, *halves):
        self.halves = halves
        self.fixed = {}     # bit -> 0/1
        self.fields = {}    # name -> (lo, width)
        for h, text in enumerate(halves):
            pos = 16
            for tok in text.split():
                if set(tok) <= set('01'):
                    for c in tok:
                        pos -= 1
                        self.fixed[16 * h + pos] = int(c)
                else:
                    name, w = tok, 1
                    if '(' in tok:
                        name, w = tok[:-1].split('(')
                        w = int(w)
                    pos -= w
                    self.fields[name] = (16 * h + pos, w)
            assert pos == 0, text
        self.size = 2 * len(halves)
