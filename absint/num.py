"""Numeric abstract domain: Boolean functions (ROBDD) and linear forms over them.

An abstract integer is  c0 + sum(coef * [node])  with node a hash-consed
decision diagram over *atoms*.  Atoms are input bits (instruction word bits,
register bits, ...) or opaque value numbers such as "carry into bit k of this
linear form".  Two abstract values with the same normal form are equal for
every input; the normal forms never refer to concrete inputs.
"""
import sys
sys.setrecursionlimit(200000)


class Unsupported(Exception):
    """The analysis cannot represent this construct: the unit is left undecided."""


class TooLarge(Unsupported):
    """The representation of a value exceeds its size limit: smaller cases may still be decided."""


class Mgr(object):
    NODE_CAP = 1500000

    def __init__(self, exact=False):
        self.exact = exact
        big = 1 << 62
        self.var = [big, big]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.phase = [0, 1]      # value when every atom is 0
        self.unique = {}
        self.c_and = {}
        self.c_xor = {}
        self.c_not = {0: 1, 1: 0}
        self.c_ite = {}
        self.c_gen = {}
        self.c_sup = {}
        self.c_opq = {}
        self.atoms = {}          # level -> descriptor
        self.atom_node = {}      # descriptor -> node
        self.seq = {}
        self.origin = {}         # node -> (k, form, neg)
        self.modcache = {}

    # ---- atoms -----------------------------------------------------------
    def atom(self, desc, cls=8, idx=0):
        n = self.atom_node.get(desc)
        if n is not None:
            return n
        s = self.seq.get((cls, idx), 0)
        self.seq[(cls, idx)] = s + 1
        level = (cls << 48) | (idx << 28) | s
        self.atoms[level] = desc
        n = self.mk(level, 0, 1)
        self.atom_node[desc] = n
        return n

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.var)
            if n > self.NODE_CAP:
                raise TooLarge('decision diagram too large')
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.phase.append(self.phase[lo])
            self.unique[k] = n
        return n

    # ---- operations ------------------------------------------------------
    def not_(self, f):
        r = self.c_not.get(f)
        if r is None:
            r = self.mk(self.var[f], self.not_(self.lo[f]), self.not_(self.hi[f]))
            self.c_not[f] = r
            self.c_not[r] = f
        return r

    def and_(self, f, g):
        if f == g:
            return f
        if f > g:
            f, g = g, f
        if f == 0:
            return 0
        if f == 1:
            return g
        k = (f, g)
        r = self.c_and.get(k)
        if r is None:
            vf, vg = self.var[f], self.var[g]
            if vf == vg:
                r = self.mk(vf, self.and_(self.lo[f], self.lo[g]), self.and_(self.hi[f], self.hi[g]))
            elif vf < vg:
                r = self.mk(vf, self.and_(self.lo[f], g), self.and_(self.hi[f], g))
            else:
                r = self.mk(vg, self.and_(f, self.lo[g]), self.and_(f, self.hi[g]))
            self.c_and[k] = r
        return r

    def or_(self, f, g):
        if f == 1 or g == 1:
            return 1
        if f == 0:
            return g
        if g == 0 or f == g:
            return f
        return self.not_(self.and_(self.not_(f), self.not_(g)))

    def xor(self, f, g):
        if f == g:
            return 0
        if f > g:
            f, g = g, f
        if f == 0:
            return g
        if f == 1:
            return self.not_(g)
        k = (f, g)
        r = self.c_xor.get(k)
        if r is None:
            vf, vg = self.var[f], self.var[g]
            if vf == vg:
                r = self.mk(vf, self.xor(self.lo[f], self.lo[g]), self.xor(self.hi[f], self.hi[g]))
            elif vf < vg:
                r = self.mk(vf, self.xor(self.lo[f], g), self.xor(self.hi[f], g))
            else:
                r = self.mk(vg, self.xor(f, self.lo[g]), self.xor(f, self.hi[g]))
            self.c_xor[k] = r
        return r

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        if a == 0 and b == 1:
            return self.not_(c)
        if a == 0:
            return self.and_(self.not_(c), b)
        if b == 0:
            return self.and_(c, a)
        if a == 1:
            return self.or_(c, b)
        if b == 1:
            return self.or_(self.not_(c), a)
        k = (c, a, b)
        r = self.c_ite.get(k)
        if r is None:
            vc, va, vb = self.var[c], self.var[a], self.var[b]
            v = vc if vc < va else va
            if vb < v:
                v = vb
            c0, c1 = (self.lo[c], self.hi[c]) if vc == v else (c, c)
            a0, a1 = (self.lo[a], self.hi[a]) if va == v else (a, a)
            b0, b1 = (self.lo[b], self.hi[b]) if vb == v else (b, b)
            r = self.mk(v, self.ite(c0, a0, b0), self.ite(c1, a1, b1))
            self.c_ite[k] = r
        return r

    def size(self, f, cap):
        """Number of nodes of a diagram, up to cap."""
        seen, todo = set(), [f]
        while todo and len(seen) < cap:
            n = todo.pop()
            if n > 1 and n not in seen:
                seen.add(n)
                todo.append(self.lo[n])
                todo.append(self.hi[n])
        return len(seen)

    def implies(self, f, g):
        return self.and_(f, self.not_(g)) == 0

    def all_(self, ns):
        r = 1
        for n in ns:
            r = self.and_(r, n)
        return r

    def any_(self, ns):
        r = 0
        for n in ns:
            r = self.or_(r, n)
        return r

    def support(self, f):
        r = self.c_sup.get(f)
        if r is None:
            if f < 2:
                r = frozenset()
            else:
                r = self.support(self.lo[f]) | self.support(self.hi[f]) | frozenset((self.var[f],))
            self.c_sup[f] = r
        return r

    def numbered(self, f):
        """Does f depend on the value number of a function of the instruction word?"""
        return any(self.atoms[lv][0] == 'fn' for lv in self.support(f))

    def opaque(self, f):
        """Does f depend on a carry atom?"""
        r = self.c_opq.get(f)
        if r is None:
            if f < 2:
                r = False
            else:
                r = self.atoms[self.var[f]][0] == 'bit' or self.opaque(self.lo[f]) or self.opaque(self.hi[f])
            self.c_opq[f] = r
        return r

    def cofactor(self, f, assign, memo=None):
        """Fix some atoms (level -> 0/1)."""
        if memo is None:
            memo = {}
        if f < 2:
            return f
        r = memo.get(f)
        if r is None:
            v = self.var[f]
            if v in assign:
                r = self.cofactor(self.hi[f] if assign[v] else self.lo[f], assign, memo)
            else:
                r = self.mk(v, self.cofactor(self.lo[f], assign, memo), self.cofactor(self.hi[f], assign, memo))
            memo[f] = r
        return r

    def general(self, f, care, memo=None):
        """A function that agrees with f on care and forgets what care already says (restrict operator)."""
        if f < 2 or care == 1 or care == 0:
            return f
        if f == care:
            return 1
        k = (f, care)
        r = self.c_gen.get(k)
        if r is not None:
            return r
        vf, vc = self.var[f], self.var[care]
        if vc < vf:
            r = self.general(f, self.or_(self.lo[care], self.hi[care]))
        else:
            if vf < vc:
                c0 = c1 = care
            else:
                c0, c1 = self.lo[care], self.hi[care]
            if c0 == 0:
                r = self.general(self.hi[f], c1)
            elif c1 == 0:
                r = self.general(self.lo[f], c0)
            else:
                r = self.mk(vf, self.general(self.lo[f], c0), self.general(self.hi[f], c1))
        self.c_gen[k] = r
        return r

    def simplify(self, f, care):
        """Constant-only simplification of f under a care set."""
        if f < 2 or care == 1:
            return f
        a = self.and_(f, care)
        if a == 0:
            return 0
        if a == care:
            return 1
        return f

    def sat_path(self, f, rnd=None):
        """One satisfying partial assignment {level: bit} or None."""
        if f == 0:
            return None
        out = {}
        while f != 1:
            lo, hi = self.lo[f], self.hi[f]
            if lo == 0:
                b = 1
            elif hi == 0:
                b = 0
            else:
                b = rnd.randrange(2) if rnd else 0
            out[self.var[f]] = b
            f = hi if b else lo
        return out


class SB(object):
    """Symbolic Boolean."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<SB %d>' % self.n


class SI(object):
    """Symbolic integer c0 + sum coef*[node]; node in canonical phase."""
    __slots__ = ('c0', 't', '_key', '_pure', 'form')

    def __init__(self, c0, t):
        self.c0 = c0
        self.t = t
        self._key = None
        self._pure = 0
        self.form = None     # (F, w): this value is F mod 2**w

    @property
    def key(self):
        if self._key is None:
            self._key = (self.c0, tuple(sorted(self.t.items())))
        return self._key

    def __repr__(self):
        return '<SI %d+%d terms>' % (self.c0, len(self.t))


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


class Num(object):
    """Operations of the domain, relative to one manager."""

    def __init__(self, mgr):
        self.m = mgr

    # ---- construction ----------------------------------------------------
    def lin(self, c0, items):
        """items: iterable of (node, coef)."""
        m = self.m
        t = {}
        for n, c in items:
            if n == 0 or c == 0:
                continue
            if n == 1:
                c0 += c
                continue
            if m.phase[n]:
                n = m.not_(n)
                c0 += c
                c = -c
            v = t.get(n, 0) + c
            if v:
                t[n] = v
            else:
                t.pop(n, None)
        if not t:
            return c0
        return SI(c0, t)

    def from_bits(self, bits):
        r = self.lin(0, [(n, 1 << k) for k, n in enumerate(bits)])
        if isinstance(r, SI):
            b = list(bits)
            while b and b[-1] == 0:
                b.pop()
            r._pure = b
        return r

    def b2i(self, v):
        if type(v) is SB:
            return self.lin(0, [(v.n, 1)])
        if v is True:
            return 1
        if v is False:
            return 0
        return v

    def mkb(self, n):
        if n == 0:
            return False
        if n == 1:
            return True
        return SB(n)

    # ---- shape -----------------------------------------------------------
    def rng(self, a):
        if type(a) is not SI:
            return a, a
        lo = hi = a.c0
        for c in a.t.values():
            if c > 0:
                hi += c
            else:
                lo += c
        return lo, hi

    def pure(self, a):
        """Bits of a non-negative value in disjoint binary representation, or None."""
        if type(a) is not SI:
            if a < 0:
                return None
            return [(a >> k) & 1 for k in range(a.bit_length())]
        if a._pure != 0:
            return a._pure
        c0 = a.c0
        bits = {}
        used = 0
        ok = c0 >= 0
        if ok:
            for n, c in a.t.items():
                ac = abs(c)
                if c < 0:
                    if ac & ~c0:
                        ok = False
                        break
                    c0 &= ~ac
                    n = self.m.not_(n)
                if ac & used:
                    ok = False
                    break
                used |= ac
                while ac:
                    low = ac & -ac
                    bits[low.bit_length() - 1] = n
                    ac ^= low
        if ok:
            for k in bits:
                if (c0 >> k) & 1:
                    ok = False
                    break
        if not ok:
            a._pure = None
            return None
        w = max(max(bits) + 1, c0.bit_length()) if bits else c0.bit_length()
        a._pure = [bits.get(k, (c0 >> k) & 1) for k in range(w)]
        return a._pure

    def sbits(self, a):
        """Two's complement bits of a value whose terms are disjoint (sign bit last), or None."""
        if type(a) is not SI:
            w = self.width_of(a)
            return [(a >> k) & 1 for k in range(w)]
        p = self.pure(a)
        if p is not None:
            return p + [0]
        w = self.width_of(a)
        if w > 700:
            return None
        c0, t = self._positive(a, w)
        red = self.lin(c0, t)
        p = self.pure(red)
        if p is None or len(p) > w:
            return None
        return p + [0] * (w - len(p))

    # ---- linear arithmetic -------------------------------------------------
    def add(self, a, b):
        if type(a) is not SI:
            if type(b) is not SI:
                return a + b
            a, b = b, a
        if type(b) is not SI:
            if b == 0:
                return a
            return SI(a.c0 + b, a.t)
        t = dict(a.t)
        for n, c in b.t.items():
            v = t.get(n, 0) + c
            if v:
                t[n] = v
            else:
                t.pop(n, None)
        if not t:
            return a.c0 + b.c0
        return SI(a.c0 + b.c0, t)

    def mulc(self, a, k):
        if type(a) is not SI:
            return a * k
        if k == 0:
            return 0
        if k == 1:
            return a
        return SI(a.c0 * k, dict((n, c * k) for n, c in a.t.items()))

    def neg(self, a):
        return self.mulc(a, -1)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if type(a) is not SI:
            return self.mulc(b, a)
        if type(b) is not SI:
            return self.mulc(a, b)
        m = self.m
        if len(a.t) > 8 and len(b.t) > 8:
            # a product of two wide values is a value number of its own
            pa, pb = self.pure(a), self.pure(b)
            if pa is None or pb is None:
                sa, sb = self.sbits(a), self.sbits(b)
                if sa is None or sb is None or sa[-1] == 1 or sb[-1] == 1:
                    raise Unsupported('product of wide signed values')
                ua, ub = self.from_bits(sa), self.from_bits(sb)
                ha, hb = 1 << len(sa), 1 << len(sb)
                r = self.mul(ua, ub)
                r = self.sub(r, self.mulc(self.mul(self.lin(0, [(sa[-1], 1)]), ub), ha))
                r = self.sub(r, self.mulc(self.mul(self.lin(0, [(sb[-1], 1)]), ua), hb))
                return self.add(r, self.lin(0, [(m.and_(sa[-1], sb[-1]), ha * hb)]))
            ka, kb = sorted((tuple(pa), tuple(pb)))
            return self.from_bits([m.atom(('mul', k, ka, kb), 5, k) for k in range(len(pa) + len(pb))])
        items = [(n, c * b.c0) for n, c in a.t.items()] + [(n, c * a.c0) for n, c in b.t.items()]
        for n, c in a.t.items():
            for p, d in b.t.items():
                items.append((m.and_(n, p), c * d))
        return self.lin(a.c0 * b.c0, items)

    # ---- bits --------------------------------------------------------------
    def bits(self, a, w):
        """Low w bits (two's complement) as nodes."""
        if type(a) is not SI:
            return [(a >> k) & 1 for k in range(w)]
        p = self.pure(a)
        if p is not None:
            return (p + [0] * (w - len(p)))[:w]
        return self._bits_general(a, w)

    def _positive(self, a, w):
        """Equivalent form mod 2**w with non-negative coefficients <= 2**(w-1)."""
        mod = 1 << w
        half = mod >> 1
        c0 = a.c0
        t = []
        top = 0
        for n, c in a.t.items():
            c %= mod
            if c == 0:
                continue
            if c > half:
                c = mod - c
                c0 -= c
                n = self.m.not_(n)
            elif c == half:
                top = self.m.xor(top, n)
                continue
            t.append((n, c))
        c0 %= mod
        if top != 0:
            if c0 & half:
                c0 -= half
                top = self.m.not_(top)
            t.append((top, half))
        return c0, t

    def _lift(self, a, w):
        """Rewrite groups of bits of (F mod 2**v) back to F, modulo 2**w."""
        org = self.m.origin
        tried = set()
        for _ in range(6):
            cand = None
            for n, c in sorted(a.t.items(), key=lambda x: -abs(x[1])):
                for o in org.get(n, ()):
                    if o[1] not in tried:
                        cand = (n, c, o)
                        break
                if cand:
                    break
            if cand is None:
                break
            n, c, (k, fid, neg, form) = cand
            tried.add(fid)
            F, v, fbits = form
            coef = -c if neg else c
            if coef % (1 << k):
                continue
            q = coef >> k
            if (q << v) % (1 << w):
                continue
            r = self.sub(a, self.mulc(self.from_bits(fbits), q))
            r = self.add(r, self.mulc(F, q))
            if type(r) is not SI:
                return r
            if self._opaque_count(r) < self._opaque_count(a):
                a = r
        return a

    def _opaque_count(self, a):
        org = self.m.origin
        return sum(1 for n in a.t if n in org)

    def small(self, a):
        """Does a depend on a few instruction-word bits only?"""
        m = self.m
        sup = set()
        for n in a.t:
            for lv in m.support(n):
                if lv >> 48:
                    return False
                sup.add(lv)
            if len(sup) > 34:
                return False
        return True

    def _case_bits(self, a, w, depth):
        """Bits of a by cases over the word bits its terms share; None when that does not separate the terms."""
        m = self.m
        if type(a) is not SI:
            return [(a >> k) & 1 for k in range(w)]
        c0, t = self._positive(a, w)
        red = self.lin(c0, t)
        if type(red) is not SI:
            return self._case_bits(red, w, depth)
        p = self.pure(red)
        if p is not None:
            return (p + [0] * (w - len(p)))[:w]
        if depth == 0:
            return None
        cnt = {}
        for n in a.t:
            for lv in m.support(n):
                cnt[lv] = cnt.get(lv, 0) + 1
        lv = max(sorted(cnt), key=lambda x: cnt[x])
        if cnt[lv] < 2:
            return None
        out = []
        for b in (0, 1):
            memo = {}
            x = self.lin(a.c0, [(m.cofactor(n, {lv: b}, memo), c) for n, c in a.t.items()])
            x = self._case_bits(x, w, depth - 1)
            if x is None:
                return None
            out.append(x)
        g = m.mk(lv, 0, 1)
        return [m.ite(g, y, x) for x, y in zip(*out)]

    def purify(self, a):
        """Disjoint binary form of a value over few bits (unchanged when that is too large)."""
        m = self.m
        if type(a) is not SI or self.pure(a) is not None or m.exact:
            return a
        key = ('p', a.key)
        r = m.modcache.get(key)
        if r is None:
            r = a
            if self.small(a):
                w = self.width_of(a)
                bits = self._case_bits(a, w, 4)
                if bits is None:
                    cap = m.NODE_CAP
                    m.NODE_CAP = min(cap, len(m.var) + 60000)
                    try:
                        c0, t = self._positive(a, w)
                        bits = self._ripple(c0, t, w)
                    except Unsupported:
                        bits = None
                    finally:
                        m.NODE_CAP = cap
                if bits is not None:
                    r = self.signed_from_bits(bits)
                    if type(r) is SI:
                        self.pure(r)
            m.modcache[key] = r
        return r

    def _bits_general(self, a, w):
        m = self.m
        a = self._lift(a, w)
        if type(a) is SI:
            a = self.purify(a)
        if type(a) is not SI:
            return self.bits(a, w)
        c0, t = self._positive(a, w)
        red = self.lin(c0, t)
        if type(red) is not SI:
            return self.bits(red, w)
        p = self.pure(red)
        if p is not None:
            return (p + [0] * (w - len(p)))[:w]
        key = (red.key, w)
        hit = m.modcache.get(key)
        if hit is not None:
            return hit
        if m.exact:
            out = self._bits_exact(a, w)
        elif len(t) <= 16:
            out = self._ripple(c0, t, w)
        else:
            out = []
            for k in range(w):
                out.append(self._bit(red, k))
            fid = key
            form = (a, w, out)
            for k, n in enumerate(out):
                if not m.opaque(n):
                    continue
                nn = m.not_(n)
                m.origin.setdefault(n, []).append((k, fid, False, form))
                m.origin.setdefault(nn, []).append((k, fid, True, form))
        m.modcache[key] = out
        return out

    # ---- bits by cases over instruction-word atoms
    def _bits_exact(self, a, w):
        m = self.m
        word, other = set(), False
        for n in a.t:
            sup = m.support(n)
            if any(lv >> 48 for lv in sup):
                other = True
            else:
                word |= sup
        if other and len(word) > 6:
            # functions of the instruction word added to machine state: one value number per function
            wt = [(n, c) for n, c in a.t.items() if not any(lv >> 48 for lv in m.support(n))]
            sub = self.lin(0, wt)
            vals = self.values(sub, 1, 33)
            if vals is not None:
                # few values (a count of listed registers, say): by cases
                rest = self.lin(a.c0, [(n, c) for n, c in a.t.items() if any(lv >> 48 for lv in m.support(n))])
                out = [0] * w
                for v, g in vals:
                    b = self.bits(self.add(rest, v), w)
                    out = [m.or_(x, m.and_(g, y)) for x, y in zip(out, b)]
                return out
            # the same value numbers for x and -x: whichever of them is a plain or signed field
            sw = self.width_of(sub)
            sb = self._split(sub, sw, {}, [1500]) if sw <= 80 else None
            if sb is not None:
                least = self._least(sb)
                if least < 0 and -least & (-least - 1):
                    neg = self.neg(sub)
                    sw = self.width_of(neg)
                    nb = self._split(neg, sw, {}, [1500])
                    if nb is not None:
                        wt = [(n, -(1 << k) if k < sw - 1 else 1 << k) for k, n in enumerate(nb)]
                    else:
                        sb = None
                else:
                    wt = [(n, (1 << k) if k < sw - 1 else -(1 << k)) for k, n in enumerate(sb)]
            red = [(n, c) for n, c in a.t.items() if any(lv >> 48 for lv in m.support(n))]
            for n, c in wt:
                if n > 1:
                    k = (abs(c) & -abs(c)).bit_length() - 1
                    if m.phase[n]:
                        n = m.not_(m.atom(('fn', m.not_(n)), 5, k))
                    else:
                        n = m.atom(('fn', n), 5, k)
                red.append((n, c))
            a = self.lin(a.c0, red)
        r = self._split(a, w, {}, [1500])
        if r is None:
            c0, t = self._positive(a, w)
            return self._ripple(c0, t, w)
        return r

    def _least(self, sbits):
        """Least value of a two's complement vector."""
        m = self.m
        g, v = sbits[-1], -(1 << (len(sbits) - 1))
        if g == 0:
            g, v = 1, 0
        for k in range(len(sbits) - 2, -1, -1):
            h = m.and_(g, m.not_(sbits[k]))
            if h:
                g = h
            else:
                v += 1 << k
        return v

    def _split(self, a, w, memo, budget):
        m = self.m
        if type(a) is not SI:
            return [(a >> k) & 1 for k in range(w)]
        key = a.key
        r = memo.get(key)
        if r is not None:
            return r
        budget[0] -= 1
        if budget[0] < 0:
            return None
        c0, t = self._positive(a, w)
        red = self.lin(c0, t)
        if type(red) is not SI:
            r = [(red >> k) & 1 for k in range(w)]
        else:
            p = self.pure(red)
            if p is not None:
                r = (p + [0] * (w - len(p)))[:w]
            else:
                cnt = {}
                for n, c in a.t.items():
                    for lv in m.support(n):
                        if not lv >> 48:
                            cnt[lv] = cnt.get(lv, 0) + 1
                if not cnt:
                    r = self._cases(a, w) or self._ripple(c0, t, w)
                else:
                    lv = max(sorted(cnt), key=lambda x: cnt[x])
                    out = []
                    for b in (0, 1):
                        cm = {}
                        x = self.lin(a.c0, [(m.cofactor(n, {lv: b}, cm), c) for n, c in a.t.items()])
                        x = self._split(x, w, memo, budget)
                        if x is None:
                            return None
                        out.append(x)
                    g = m.mk(lv, 0, 1)
                    r = [m.ite(g, y, x) for x, y in zip(*out)]
        memo[key] = r
        return r

    def _cases(self, a, w):
        """Bits of a sum of few possible values (a count, a position): by cases along the variable order."""
        m = self.m
        lo, hi = self.rng(a)
        if hi - lo > 600 or len(a.t) < 6:
            return None
        sup = set()
        for n in a.t:
            sup |= m.support(n)
        if len(sup) > 140:
            return None
        memo = {}
        budget = [6000]

        def go(x):
            if type(x) is not SI:
                return [(x >> k) & 1 for k in range(w)]
            r = memo.get(x.key)
            if r is None:
                budget[0] -= 1
                if budget[0] < 0:
                    raise TooLarge('cases of a sum')
                lv = min(m.var[n] for n in x.t)
                y = [go(self.lin(x.c0, [((m.hi[n] if b else m.lo[n]) if m.var[n] == lv else n, c)
                                        for n, c in x.t.items()])) for b in (0, 1)]
                g = m.mk(lv, 0, 1)
                r = memo[x.key] = [m.ite(g, q, p) for p, q in zip(*y)]
            return r
        try:
            return go(a)
        except TooLarge:
            return None

    def _ripple(self, c0, t, w):
        m = self.m
        cols = [[] for _ in range(w)]
        for n, c in t:
            k = 0
            while c and k < w:
                if c & 1:
                    cols[k].append(n)
                c >>= 1
                k += 1
        out = []
        carry = []
        for k in range(w):
            col = carry + cols[k]
            if (c0 >> k) & 1:
                col.append(1)
            carry = []
            while len(col) >= 2:
                if len(col) >= 3:
                    a, b, c = col.pop(0), col.pop(0), col.pop(0)
                    s = m.xor(m.xor(a, b), c)
                    co = m.or_(m.and_(a, b), m.and_(c, m.xor(a, b)))
                else:
                    a, b = col.pop(0), col.pop(0)
                    s = m.xor(a, b)
                    co = m.and_(a, b)
                col.append(s)
                if co:
                    carry.append(co)
            out.append(col[0] if col else 0)
        return out

    def _bit(self, a, k, split=True):
        """Bit k of form a (any SI), as xor of peeled terms and a carry atom."""
        m = self.m
        c0, t = self._positive(a, k + 1)
        top = 1 << k
        x = (c0 >> k) & 1
        low = []
        for n, c in t:
            if c == top:
                x = m.xor(x, n)
            else:
                low.append((n, c))
        c0 &= top - 1
        hi = c0 + sum(c for _, c in low)
        if hi < top:
            return x
        if split and k in (8, 16, 32) and hi < 4 * top:
            half = top >> 1
            H = [n for n, c in low if c == half]
            rest = [(n, c) for n, c in low if c != half]
            cb = (c0 >> (k - 1)) & 1
            c1 = c0 & (half - 1)
            hr = c1 + sum(c for _, c in rest)
            if len(H) <= 3 and hr < 2 * half:
                cin = self._carry(c1, rest, k - 1) if hr >= half else 0
                s = self._ripple(0, [(n, 1) for n in H] + [(cin, 1), (cb, 1)], 2)
                return m.xor(x, s[1])
        return m.xor(x, self._carry(c0, low, k))

    def _carry(self, c0, low, k):
        """Atom: bit k of c0 + sum(low) where every coefficient is below 2**k."""
        form = self.lin(c0, low)
        if type(form) is not SI:
            return (form >> k) & 1
        return self.m.atom(('bit', k, form.key), 5, k + 1)

    def mod2(self, a, w):
        if type(a) is not SI:
            return a & ((1 << w) - 1)
        lo, hi = self.rng(a)
        if lo >= 0 and hi < (1 << w):
            return a
        return self.from_bits(self.bits(a, w))

    def width_of(self, a):
        """Signed width W with -2**(W-1) <= a < 2**(W-1)."""
        lo, hi = self.rng(a)
        w = 1
        while not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))):
            w += 1
        return w

    def signed_from_bits(self, bits):
        w = len(bits)
        return self.lin(0, [(n, (1 << k) if k < w - 1 else -(1 << k)) for k, n in enumerate(bits)])

    def shr(self, a, n):
        if type(a) is not SI:
            return a >> n
        if n == 0:
            return a
        p = self.pure(a)
        if p is not None:
            return self.from_bits(p[n:])
        if a.c0 % (1 << n) == 0 and all(c % (1 << n) == 0 for c in a.t.values()):
            return SI(a.c0 >> n, dict((x, c >> n) for x, c in a.t.items()))
        r = self.sub(a, self.mod2(a, n))
        if type(r) is not SI:
            return r >> n
        if r.c0 % (1 << n) == 0 and all(c % (1 << n) == 0 for c in r.t.values()):
            return SI(r.c0 >> n, dict((x, c >> n) for x, c in r.t.items()))
        w = self.width_of(a)
        if w > 200:
            raise Unsupported('wide shift')
        b = self.bits(a, w)
        return self.signed_from_bits(b[n:] or [b[-1]])

    def shl(self, a, n):
        return self.mulc(a, 1 << n)

    def _two(self, a, b):
        pa, pb = self.pure(a), self.pure(b)
        if pa is not None and pb is not None:
            w = max(len(pa), len(pb)) + 1
        else:
            w = max(self.width_of(a), self.width_of(b))
        if w > 700:
            raise Unsupported('wide bitwise operation')
        return self.bits(a, w), self.bits(b, w), w

    def band(self, a, b):
        if type(a) is not SI and type(b) is not SI:
            return a & b
        if type(a) is not SI:
            a, b = b, a
        if type(b) is not SI and b >= 0:
            w = b.bit_length()
            if b == (1 << w) - 1:
                return self.mod2(a, w)
            bits = self.bits(a, w)
            return self.from_bits([bits[k] if (b >> k) & 1 else 0 for k in range(w)])
        if type(b) is not SI and self.pure(a) is None:
            return self.sub(a, self.band(a, ~b))
        x, y, w = self._two(a, b)
        return self.signed_from_bits([self.m.and_(p, q) for p, q in zip(x, y)])

    def bor(self, a, b):
        if type(a) is not SI and type(b) is not SI:
            return a | b
        if type(a) is not SI:
            a, b = b, a
        if type(b) is not SI and b >= 0 and self.pure(a) is None:
            return self.sub(self.add(a, b), self.band(a, b))
        x, y, w = self._two(a, b)
        return self.signed_from_bits([self.m.or_(p, q) for p, q in zip(x, y)])

    def bxor(self, a, b):
        if type(a) is not SI and type(b) is not SI:
            return a ^ b
        x, y, w = self._two(a, b)
        return self.signed_from_bits([self.m.xor(p, q) for p, q in zip(x, y)])

    # ---- comparison ----------------------------------------------------------
    def dist(self, a, cap=4096):
        """{value: node} by summing the terms; None when the range is too large."""
        if type(a) is not SI:
            return {a: 1}
        lo, hi = self.rng(a)
        g = 0
        for c in a.t.values():
            g = gcd(g, abs(c))
        if (hi - lo) // g > cap:
            return None
        m = self.m
        cur = {a.c0: 1}
        for n, c in sorted(a.t.items(), key=lambda x: -abs(x[1])):
            nn = m.not_(n)
            nxt = {}
            for v, g in cur.items():
                x = m.and_(g, nn)
                if x:
                    nxt[v] = m.or_(nxt.get(v, 0), x)
                x = m.and_(g, n)
                if x:
                    nxt[v + c] = m.or_(nxt.get(v + c, 0), x)
            cur = nxt
        return cur

    def _has_opaque(self, bits):
        org = self.m.origin
        return any(n in org for n in bits)

    def _common_form(self, bits):
        """(F, w) when bits are exactly the low bits of one recorded form."""
        org = self.m.origin
        for n in reversed(bits):
            for (k, fid, neg, form) in org.get(n, ()):
                if neg:
                    continue
                F, w, fb = form
                if w >= len(bits) and list(fb[:len(bits)]) == list(bits):
                    return F, len(bits)
            break
        return None

    def _refn(self, a, b):
        """Both values over the same value numbers for functions of the instruction word."""
        m = self.m
        if not any(type(x) is SI and any(m.numbered(n) for n in x.t) for x in (a, b)):
            return a, b
        out = []
        for x in (a, b):
            if type(x) is SI and self.pure(x) is None and self.sbits(x) is None and self.width_of(x) <= 80:
                x = self.signed_from_bits(self.bits(x, self.width_of(x)))
            out.append(x)
        return out

    def eq(self, a, b):
        """Node for a == b."""
        m = self.m
        if type(a) is not SI and type(b) is not SI:
            return 1 if a == b else 0
        if type(a) is not SI:
            a, b = b, a
        la, ha = self.rng(a)
        lb, hb = self.rng(b)
        if ha < lb or hb < la:
            return 0
        if m.exact:
            a, b = self._refn(a, b)
        pa, pb = self.pure(a), self.pure(b)
        if pa is not None and pb is not None:
            if not m.exact:
                fa = self._common_form(pa)
                if fa is not None and type(b) is not SI:
                    d = self.sub(fa[0], b)
                    return self._zero_mod(d, fa[1])
            if not self._has_opaque(pa) and not self._has_opaque(pb) or type(b) is not SI:
                w = max(len(pa), len(pb))
                pa = pa + [0] * (w - len(pa))
                pb = pb + [0] * (w - len(pb))
                if not m.exact:
                    r = 1
                    for x, y in zip(reversed(pa), reversed(pb)):
                        r = m.and_(r, m.not_(m.xor(x, y)))
                        if r == 0:
                            break
                    return r
                return self._all_zero([m.xor(x, y) for x, y in zip(pa, pb)])
        if m.exact and (pa is None or pb is None):
            sa, sb = self.sbits(a), self.sbits(b)
            if sa is not None and sb is not None:
                w = max(len(sa), len(sb))
                sa = sa + [sa[-1]] * (w - len(sa))
                sb = sb + [sb[-1]] * (w - len(sb))
                return self._all_zero([m.xor(x, y) for x, y in zip(sa, sb)])
        return self.eq0(self.sub(a, b))

    def _all_zero(self, nodes, limit=6000):
        """Conjunction of the complements; one value number when that is too large to write out."""
        m = self.m
        if 1 in nodes:
            return 0
        key = tuple(nodes)
        r = m.modcache.get(('z', key, limit))
        if r is not None:
            return r
        cap = m.NODE_CAP
        m.NODE_CAP = min(cap, len(m.var) + 150000)
        r = 1
        try:
            for x in reversed(nodes):
                if x == 0:
                    continue
                r = m.and_(r, m.not_(x))
                if r == 0:
                    break
                if m.size(r, limit) >= limit:
                    r = None
                    break
        except Unsupported:
            r = None
        finally:
            m.NODE_CAP = cap
        if r is None:
            r = m.atom(('eqz', key), 7, 0)
        m.modcache[('z', key, limit)] = r
        return r

    def unified(self, nodes, care):
        """Key for a vector of nodes relative to care."""
        m = self.m
        u = self.unify(list(nodes) + [care], care)
        if u is not None:
            nodes, care = u[:-1], u[-1]
        return [m.and_(x, care) for x in nodes]

    def unify(self, nodes, care):
        """The nodes with value numbers identified that agree on care."""
        m = self.m
        sup = set()
        for n in nodes:
            sup |= m.support(n)
        rep, sub = {}, {}
        for lv in sorted(sup):
            d = m.atoms[lv]
            if d[0] == 'fn':
                keys = (('fn', m.and_(d[1], care)),)
                inv = ('fn', m.and_(m.not_(d[1]), care))
                if keys[0][1] == 0 or inv[1] == 0:
                    sub[lv] = 0 if keys[0][1] == 0 else 1
                    continue
            elif d[0] == 'eqz':
                x = [m.and_(x, care) for x in d[1]]
                while x and x[-1] == 0:
                    x.pop()
                e = self._all_zero([m.general(y, care) for y in d[1]], 20000) if care > 1 else None
                if e is not None and not any(m.atoms[q][0] == 'eqz' for q in m.support(e)):
                    sub[lv] = e
                    continue
                keys, inv = (('eqz', tuple(x)),), None
            elif d[0][:3] == 'mem' and not isinstance(d[1], int):
                # memory read at the same address under care
                keys, inv = ((d[0], tuple(self.unified(d[1][1:], care)), d[2], d[3]),), None
            elif d[0][:3] == 'reg':
                # the register with the same number under care
                i = d[1] if isinstance(d[1], int) else self.general(SI(d[1][0], dict(d[1][1])), care)
                keys, inv = ((d[0], tuple(m.and_(x, care) for x in self.bits(i, 8)), d[2]),), None
            else:
                continue
            if keys[0] in rep:
                sub[lv] = rep[keys[0]]
            elif inv is not None and inv in rep:
                sub[lv] = m.not_(rep[inv])
            else:
                rep[keys[0]] = m.mk(lv, 0, 1)
        if not sub:
            return None
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                v = m.var[n]
                lo, hi = go(m.lo[n]), go(m.hi[n])
                r = m.ite(sub.get(v, m.mk(v, 0, 1)), hi, lo)
                memo[n] = r
            return r
        return [go(n) for n in nodes]

    def _zero_mod(self, d, w):
        if type(d) is not SI:
            return 1 if d % (1 << w) == 0 else 0
        c0, t = self._positive(d, w)
        p = self.lin(c0, t)
        if type(p) is not SI:
            return 1 if p % (1 << w) == 0 else 0
        if len(p.t) <= 16:
            return m_all_zero(self, self._ripple(c0, t, w))
        # d == 0 and -d == 0 are the same fact: pick one representative
        q = SI(-d.c0, dict((n, -c) for n, c in d.t.items()))
        c1, t1 = self._positive(q, w)
        p1 = self.lin(c1, t1)
        form = min(p.key, p1.key)
        return self.m.atom(('eqm', w, form), 8, 1)

    def eq0(self, d):
        m = self.m
        if type(d) is not SI:
            return 1 if d == 0 else 0
        lo, hi = self.rng(d)
        if lo > 0 or hi < 0:
            return 0
        g = 0
        for c in d.t.values():
            g = gcd(g, abs(c))
        if d.c0 % g:
            return 0
        if g > 1:
            d = SI(d.c0 // g, dict((n, c // g) for n, c in d.t.items()))
        dd = self.dist(d)
        if dd is not None:
            return dd.get(0, 0)
        d = self.purify(d)
        if type(d) is not SI:
            return 1 if d == 0 else 0
        p = self.pure(d)
        if p is None and self.small(d) and self._disjoint_terms(d):
            return m.all_([m.not_(n) for n in d.t]) if d.c0 == 0 else m.all_(
                [m.not_(m.xor(n, x)) for n, x in self._disjoint_terms(d)])
        if p is not None and not self._has_opaque(p):
            return m.all_([m.not_(x) for x in p])
        e = self._lift_exact(d)
        if e is not None:
            return self.eq0(e)
        if m.exact:
            w = self.width_of(d)
            return m.all_([m.not_(x) for x in self.bits(d, w)])
        k1 = d.key
        k2 = self.neg(d).key
        return m.atom(('eq0', min(k1, k2)), 8, 2)

    def _lift_exact(self, d):
        """Replace a full group  q*(F mod 2**v)  by  q*F - q*2**v*(F div 2**v)."""
        org = self.m.origin
        best = None
        for n, c in sorted(d.t.items(), key=lambda x: -abs(x[1])):
            for (k, fid, neg, form) in org.get(n, ()):
                F, v, fbits = form
                coef = -c if neg else c
                # fbits may be wider than the group used: try group width k+1..v
                if coef % (1 << k):
                    continue
                q = coef >> k
                for vv in sorted(set((v, k + 1, k + 2))):
                    if vv > v:
                        continue
                    hi = self.shr_small(F, vv)
                    if hi is None:
                        continue
                    r = self.sub(d, self.mulc(self.from_bits(fbits[:vv]), q))
                    r = self.add(r, self.mulc(F, q))
                    r = self.sub(r, self.mulc(hi, q << vv))
                    n1 = len(r.t) if type(r) is SI else 0
                    if n1 < len(d.t) and (best is None or n1 < best[0]):
                        best = (n1, r)
            if best:
                return best[1]
        return None

    def shr_small(self, F, v):
        """F >> v when that takes only a couple of bits."""
        lo, hi = self.rng(F)
        if lo < -(1 << v) * 2 or hi >= (1 << v) * 4:
            return None
        w = self.width_of(F)
        if w <= v:
            w = v + 1
        out = []
        for k in range(v, w):
            out.append(self._bit(F, k))
        return self.signed_from_bits(out)

    def general(self, a, care):
        """A value equal to a on care whose terms forget what care already says."""
        m = self.m
        if type(a) is not SI or care < 2:
            return a
        p = self.pure(a)
        if p is not None:
            return self.from_bits([m.general(x, care) for x in p])
        return self.lin(a.c0, [(m.general(n, care), c) for n, c in a.t.items()])

    def differ(self, a, b, care):
        """Node inside care where a != b."""
        m = self.m
        a, b = self.general(a, care), self.general(b, care)
        if type(a) is SI and type(b) is SI and a.key == b.key:
            return 0
        pa, pb = self.pure(a), self.pure(b)
        if pa is None or pb is None or self._has_opaque(pa) or self._has_opaque(pb):
            return m.and_(care, m.not_(self.eq(a, b)))
        w = max(len(pa), len(pb))
        pa = pa + [0] * (w - len(pa))
        pb = pb + [0] * (w - len(pb))
        r = 0
        for x, y in zip(pa, pb):
            if x != y:
                r = self.ndiffer(x, y, care)
                if r:
                    return r     # a part of the difference is enough
        return r

    def ndiffer(self, x, y, care):
        """Node inside care where the nodes x and y differ."""
        m = self.m
        r = m.and_(care, m.xor(x, y))
        if r == 0 or not any(m.atoms[lv][0] in ('fn', 'eqz') or m.atoms[lv][0][:3] == 'mem' or
                             m.atoms[lv][0][:3] == 'reg' and not isinstance(m.atoms[lv][1], int) for lv in m.support(r)):
            return r
        rest = 0
        for leaf, g in self.word_cases(r):
            c = m.and_(care, g)
            p, q = m.general(x, c), m.general(y, c)
            b = m.and_(c, m.xor(p, q))
            if b:
                u = self.unify([p, q, c], c)
                if u is not None:
                    b = m.and_(u[2], m.xor(u[0], u[1]))
            rest = m.or_(rest, b)
            if b:
                break
        if rest:
            d = self.spell_out(m.xor(x, y))
            if d is not None:
                return m.and_(care, d)
        return rest

    def spell_out(self, n):
        """n with those value numbers written out whose word bits occur in it anyway, or None."""
        m = self.m
        sup = m.support(n)
        raw = set(lv for lv in sup if m.atoms[lv][0] == 'w')
        subs = {}
        for lv in sup:
            d = m.atoms[lv]
            if d[0] == 'fn' and m.support(d[1]) <= raw:
                subs[lv] = d[1]
        if not subs:
            return None
        cap = m.NODE_CAP
        m.NODE_CAP = min(cap, len(m.var) + 200000)
        memo = {}

        def go(f):
            if f < 2:
                return f
            r = memo.get(f)
            if r is None:
                v = m.var[f]
                r = memo[f] = m.ite(subs.get(v, m.mk(v, 0, 1)), go(m.hi[f]), go(m.lo[f]))
            return r
        try:
            return go(n)
        except TooLarge:
            return None
        finally:
            m.NODE_CAP = cap

    def word_cases(self, r, cap=400):
        """[(remaining function, guard over instruction-word atoms)] of a node."""
        m = self.m
        out = {}
        reach = {r: 1}
        import heapq
        todo = [(m.var[r], r)]
        seen = {r}
        while todo:
            v, n = heapq.heappop(todo)
            g = reach[n]
            if n < 2 or v >> 48:
                if n:
                    out[n] = g
                continue
            for c, b in ((m.lo[n], 0), (m.hi[n], 1)):
                x = m.mk(v, 0, 1)
                h = m.and_(g, x if b else m.not_(x))
                reach[c] = m.or_(reach.get(c, 0), h)
                if c not in seen:
                    seen.add(c)
                    heapq.heappush(todo, (m.var[c], c))
            if len(seen) > 20000:
                return [(r, 1)]
        if len(out) > cap:
            return [(r, 1)]
        return sorted(out.items())

    def lt(self, a, b):
        """Node for a < b."""
        if type(a) is not SI and type(b) is not SI:
            return 1 if a < b else 0
        la, ha = self.rng(a)
        lb, hb = self.rng(b)
        if ha < lb:
            return 1
        if la >= hb:
            return 0
        m = self.m
        if m.exact:
            a, b = self._refn(a, b)
        pa, pb = self.pure(a), self.pure(b)
        if pa is not None and pb is not None and not self._has_opaque(pa) and not self._has_opaque(pb):
            w = max(len(pa), len(pb))
            pa = pa + [0] * (w - len(pa))
            pb = pb + [0] * (w - len(pb))
            r = 0
            for x, y in zip(pa, pb):
                # r = (~x & y) | (x==y & r)
                r = m.ite(m.xor(x, y), y, r)
            return r
        a0, b0 = self.purify(a), self.purify(b)
        if a0 is not a or b0 is not b:
            return self.lt(a0, b0)
        d = self.sub(a, b)
        if type(d) is not SI:
            return 1 if d < 0 else 0
        lo, hi = self.rng(d)
        if hi < 0:
            return 1
        if lo >= 0:
            return 0
        dd = self.dist(d)
        if dd is not None:
            return m.any_([g for v, g in dd.items() if v < 0])
        if pa is not None and type(b) is not SI and b > 0 and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return m.all_([m.not_(x) for x in pa[k:]])
        e = self._lift_exact(d)
        if e is not None:
            return self.lt(e, 0)
        w = self.width_of(d)
        if any(m.atoms[lv][0] == 'mul' for n in d.t for lv in m.support(n)):
            return m.atom(('neg', d.key), 8, 3)
        if m.exact or self.small(d):
            return self.bits(d, w)[w - 1]
        return self._bit(d, w - 1)

    # ---- selection -------------------------------------------------------
    def _disjoint_terms(self, d):
        """Signed binary form with distinct powers: [(node, value the node has when d == 0)], else None."""
        seen = set()
        neg = None
        w = 0
        for n, c in d.t.items():
            ac = abs(c)
            if ac & (ac - 1) or ac in seen:
                return None
            seen.add(ac)
            w = max(w, ac)
            if c < 0:
                if neg is not None:
                    return None
                neg = ac
        if neg is not None and neg != w:
            return None
        tgt = -d.c0
        if neg is None and not 0 <= tgt < 2 * w:
            return None
        if neg is not None and not -w <= tgt < w:
            return None
        bits = tgt % (2 * w)
        if bits & ~sum(seen):
            return None
        return [(n, 1 if bits & abs(c) else 0) for n, c in d.t.items()]

    def unform(self, a):
        """Linear form F with a == F mod 2**w, and w, for a pure value; else None."""
        p = self.pure(a)
        if p is None:
            return None
        f = self._common_form(p) if type(a) is SI else None
        return f

    def ite(self, g, a, b):
        m = self.m
        if g == 1:
            return a
        if g == 0:
            return b
        if type(a) is not SI and type(b) is not SI:
            if a == b:
                return a
            return self.lin(b, [(g, a - b)])
        if type(a) is SI and type(b) is SI and (a is b or a.key == b.key):
            return a
        d = self.sub(a, b)
        if type(d) is not SI:
            return self.add(b, self.lin(0, [(g, d)]))
        pa, pb = self.pure(a), self.pure(b)
        if pa is not None and pb is not None:
            fa = self.unform(a)
            fb = self.unform(b)
            if fa or fb:
                w = (fa or fb)[1]
                if (fa is None or fa[1] == w) and (fb is None or fb[1] == w) and \
                        len(pa) <= w and len(pb) <= w:
                    A = fa[0] if fa else a
                    B = fb[0] if fb else b
                    dd = self.sub(A, B)
                    if type(dd) is SI:
                        dd = self._lift(dd, w)
                    if type(dd) is not SI:
                        r = dd % (1 << w)
                        if r >= 1 << (w - 1):
                            r -= 1 << w
                        return self.mod2(self.add(B, self.lin(0, [(g, r)])), w)
            w = max(len(pa), len(pb))
            pa = pa + [0] * (w - len(pa))
            pb = pb + [0] * (w - len(pb))
            return self.from_bits([m.ite(g, x, y) for x, y in zip(pa, pb)])
        if m.exact:
            sa, sb = self.sbits(a), self.sbits(b)
            if sa is not None and sb is not None:
                w = max(len(sa), len(sb))
                sa = sa + [sa[-1]] * (w - len(sa))
                sb = sb + [sb[-1]] * (w - len(sb))
                return self.signed_from_bits([m.ite(g, x, y) for x, y in zip(sa, sb)])
        items = []
        if m.exact:
            ta = a.t if type(a) is SI else {}
            tb = b.t if type(b) is SI else {}
            ng = m.not_(g)
            for n, c in ta.items():
                items.append((m.and_(g, n), c) if tb.get(n) != c else (n, c))
            for n, c in tb.items():
                if ta.get(n) != c:
                    items.append((m.and_(ng, n), c))
            c0 = b.c0 if type(b) is SI else b
            items.append((g, d.c0))
            return self.lin(c0, items)
        for n, c in d.t.items():
            items.append((m.and_(g, n), c))
        items.append((g, d.c0))
        return self.add(b, self.lin(0, items))

    def simplify(self, a, care):
        """Drop what the care set decides (constants only)."""
        if type(a) is not SI or care == 1:
            return a
        m = self.m
        sup = m.support(care)
        out = None
        for n, c in a.t.items():
            if m.support(n).isdisjoint(sup):
                continue
            s = m.simplify(n, care)
            if s != n:
                if out is None:
                    out = []
                out.append((n, s, c))
        if out is None:
            return a
        t = dict(a.t)
        c0 = a.c0
        for n, s, c in out:
            del t[n]
            if s == 1:
                c0 += c
        if not t:
            return c0
        return SI(c0, t)

    def values(self, a, care, cap=300):
        """Feasible constants of a under care: [(value, guard)] or None."""
        if type(a) is not SI:
            return [(a, care)]
        m = self.m
        a = self.simplify(a, care)
        if type(a) is not SI:
            return [(a, care)]
        # depth first over bits / terms with pruning by the care set
        cur = [(a.c0, care)]
        for n, c in sorted(a.t.items(), key=lambda x: -abs(x[1])):
            nn = m.not_(n)
            nxt = {}
            for v, g in cur:
                x = m.and_(g, nn)
                if x:
                    nxt[v] = m.or_(nxt.get(v, 0), x)
                x = m.and_(g, n)
                if x:
                    nxt[v + c] = m.or_(nxt.get(v + c, 0), x)
            if len(nxt) > cap:
                return None
            cur = list(nxt.items())
        return sorted(cur)


def m_all_zero(num, bits):
    r = 1
    for b in reversed(bits):
        r = num.m.and_(r, num.m.not_(b))
        if r == 0:
            break
    return r


class Evaluator(object):
    """Evaluate normal forms at a point, to confirm that two of them differ."""

    def __init__(self, mgr, source):
        self.m = mgr
        self.source = source     # source(desc, self) -> 0/1 for input atoms
        self.memo = {}
        self.amemo = {}

    def atom(self, level):
        r = self.amemo.get(level)
        if r is None:
            d = self.m.atoms[level]
            k = d[0]
            if k == 'bit':
                r = (self.form(d[2]) >> d[1]) & 1
            elif k == 'fn':
                r = self.node(d[1])
            elif k == 'eqz':
                r = 0 if any(self.node(x) for x in d[1]) else 1
            elif k == 'mul':
                x, y = (sum(self.node(n) << i for i, n in enumerate(p)) for p in d[2:4])
                r = (x * y >> d[1]) & 1
            elif k == 'fdiv':
                x, y = (sum(self.node(n) << i for i, n in enumerate(p)) for p in d[2:4])
                r = (int(x / y) >> d[1]) & 1 if y else 0
            elif k in ('idiv', 'imod'):
                x, y = (sum(self.node(n) << i for i, n in enumerate(p)) for p in d[2:4])
                r = ((x // y if k == 'idiv' else x % y) >> d[1]) & 1 if y else 0
            elif k == 'neg':
                r = 1 if self.form(d[1]) < 0 else 0
            elif k == 'eq0':
                r = 1 if self.form(d[1]) == 0 else 0
            elif k == 'eqm':
                r = 1 if self.form(d[2]) % (1 << d[1]) == 0 else 0
            else:
                r = self.source(d, self)
            self.amemo[level] = r
        return r

    def node(self, n):
        m = self.m
        memo = self.memo
        while n > 1:
            n = m.hi[n] if self.atom(m.var[n]) else m.lo[n]
        return n

    def form(self, key):
        return key[0] + sum(c for n, c in key[1] if self.node(n))

    def num(self, v):
        if type(v) is SI:
            return v.c0 + sum(c for n, c in v.t.items() if self.node(n))
        if type(v) is SB:
            return self.node(v.n)
        return int(v)
