"""Reference machine: collects the architected effects of one instruction over the initial state."""


class Effects(object):
    def __init__(self, k, deleg, size, raw=False):
        self.k, self.I, self.N, self.m = k, k.I, k.N, k.m
        self.d = deleg                  # abstract delegate: source of the initial state
        self.size = size
        self.raw = raw                  # PC read as an operand gives its raw content
        self.regs = []                  # (guard, index, value)
        self.flagw = []                 # (guard, bit, node)
        self.loads = []                 # (guard, address, size)
        self.stores = []                # (guard, address, size, value)
        self.branches = []              # (guard, target)

    # ---- reads of the initial state
    def R(self, i):
        return self.d.initial(i)

    R0 = R

    def RO(self, i):
        v = self.d.initial(i)
        if self.raw:
            return v
        g = self.N.eq(i, 15)
        return self.k.ite(g, self.pc4, v) if g else v

    def F(self, letter):
        return self.k.bits(self.R(16), 32)['VCZN'.index(letter) + 28]

    @property
    def pc(self):
        return self.R(15)

    @property
    def pc4(self):
        return self.k.mod32(self.N.add(self.pc, 4))

    # ---- effects
    def w(self, idx, val, guard=1):
        self.regs.append((guard, idx, val))

    def flags(self, **kw):
        self.flags_if(1, **kw)

    def flags_if(self, g, **kw):
        for n, v in kw.items():
            self.flagw.append((g, 'VCZN'.index(n) + 28, v))

    def load(self, addr, size, g=1):
        self.loads.append((g, addr, size))
        return self.d.memory(addr, size)

    def store(self, addr, val, size, g=1):
        self.stores.append((g, addr, size, val))

    def branch(self, target, guard=1):
        self.branches.append((guard, target))

    # ---- final state
    def final_pc(self):
        """(value, guard of a branch, guard of a data write to PC)"""
        m = self.m
        v = self.k.mod32(self.N.add(self.pc, self.size))
        br = 0
        for g, t in self.branches:
            v = self.k.ite(g, t, v)
            br = m.or_(br, g)
        dest = 0
        for g, i, x in self.regs:
            c = m.and_(g, self.N.eq(i, 15))
            if c:
                v = self.k.ite(c, x, v)
                dest = m.or_(dest, c)
        return v, br, dest

    def final(self, idx):
        """Value of register idx after the instruction (not PC, not xPSR)."""
        m = self.m
        v = self.R(idx)
        for g, i, x in self.regs:
            c = m.and_(g, self.N.eq(i, idx))
            if c:
                v = self.k.ite(c, x, v)
        return v

    def written(self, idx):
        m = self.m
        return m.any_([m.and_(g, self.N.eq(i, idx)) for g, i, x in self.regs])

    def final_xpsr(self):
        bits = list(self.k.bits(self.R(16), 32))
        for g, b, n in self.flagw:
            bits[b] = self.m.ite(g, n, bits[b])
        return bits
