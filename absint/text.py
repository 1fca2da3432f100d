"""Abstract text: concatenations of constants, finite maps and formatted integers.

A part is  str | ('map', ((text, guard), ...)) | ('fmt', spec, SI).
"""
import re
from .num import SI, SB, Unsupported
from .values import AStr

SPEC = re.compile(r'^(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)(,?)(?:\.(\d+))?([a-zA-Z%]?)$')
EXPAND_CAP = 4096


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AStr(tuple(out))


def parts_of(s):
    if type(s) is AStr:
        return list(s.parts)
    return [s] if s else []


def concat(strs):
    out = []
    for s in strs:
        if type(s) is AStr:
            out.extend(s.parts)
        else:
            out.append(s)
    return norm(out)


def mkmap(m, items):
    """items: iterable (text, guard) with exclusive guards."""
    d = {}
    for t, g in items:
        if g:
            d[t] = m.or_(d.get(t, 0), g)
    if not d:
        return ''
    if len(d) == 1:
        return list(d)[0]
    return AStr((('map', tuple(sorted(d.items()))),))


def restrict(m, s, care):
    """Drop map alternatives that care excludes."""
    if type(s) is not AStr or care == 1:
        return s
    out = []
    ch = False
    for p in s.parts:
        if not isinstance(p, str) and p[0] == 'map':
            keep = [(t, g) for t, g in p[1] if m.and_(g, care)]
            if len(keep) != len(p[1]):
                ch = True
                if len(keep) == 1:
                    out.append(keep[0][0])
                    continue
                p = ('map', tuple(keep))
        out.append(p)
    return norm(out) if ch else s


def expand(interp, s, pc=None, cap=EXPAND_CAP):
    """[(text, guard)] for a finite abstract text under pc, or None."""
    m = interp.m
    if pc is None:
        pc = interp.pc
    if isinstance(s, str):
        return [(s, pc)]
    n = 1
    for p in s.parts:
        if not isinstance(p, str) and p[0] != 'fmt':
            n *= len(p[1])
    if n > 8 * cap and pc != 1:
        return None          # (some of these could be impossible under pc)
    cur = {'': pc}
    for p in s.parts:
        if isinstance(p, str):
            cur = dict((t + p, g) for t, g in cur.items())
            continue
        if p[0] == 'fmt':
            vals = interp.N.values(p[2], pc, cap=300)
            if vals is None:
                return None
            alts = [(format(v, p[1]), g) for v, g in vals]
        else:
            alts = p[1]
        nxt = {}
        for t, g in cur.items():
            for u, h in alts:
                x = m.and_(g, h)
                if x:
                    k = t + u
                    nxt[k] = m.or_(nxt.get(k, 0), x)
            if len(nxt) > cap:
                return None
        cur = nxt
    return sorted(cur.items())


def from_int(interp, v, spec):
    """format(v, spec) for a symbolic integer."""
    N, m = interp.N, interp.m
    if type(v) is not SI:
        return format(v, spec)
    v = N.purify(N.simplify(v, interp.pc))
    if type(v) is not SI:
        return format(v, spec)
    vals = N.values(v, interp.pc, cap=40)
    if vals is not None:
        return mkmap(m, [(format(x, spec), g) for x, g in vals])
    mt = SPEC.match(spec)
    if not mt:
        raise Unsupported('format spec %r' % spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = mt.groups()
    if comma or prec:
        raise Unsupported('format spec %r' % spec)
    w = int(width) if width else 0
    typ = typ or 'd'
    if typ not in 'dxXbo':
        raise Unsupported('format type %r' % typ)
    if sign == '-':
        sign = ''
    if zero and not align:
        fill, align = '0', '='
    prefix = {'x': '0x', 'X': '0X', 'b': '0b', 'o': '0o', 'd': ''}[typ] if alt else ''
    lo, hi = N.rng(v)
    bitsper = {'x': 4, 'X': 4, 'b': 1}.get(typ)
    if w and fill == '0' and align in ('=', '>') and lo >= 0 and not sign and bitsper:
        digits = w - len(prefix)
        p = N.pure(v)
        if p is None:
            p = N.bits(v, hi.bit_length())
        if digits > 0 and len(p) <= digits * bitsper and (align == '=' or not prefix):
            p = list(p) + [0] * (digits * bitsper - len(p))
            out = [prefix]
            for k in reversed(range(digits)):
                x = N.from_bits(p[k * bitsper:(k + 1) * bitsper])
                vv = N.values(x, interp.pc, cap=40)
                out.append(mkmap(m, [(format(q, typ), g) for q, g in vv]))
            return concat(out)
    if lo < 0 and prefix:
        return norm([('fmt', spec, v)])
    core = norm([prefix, ('fmt', sign + typ, v)])
    if not w:
        return core
    if align == '=':
        if lo < 0 or sign or prefix:
            return norm([('fmt', spec, v)])
        align = '>'
    return pad(interp, core, fill or ' ', align or '>', w)


def len_dist(interp, p):
    """[(length, guard)] of one part."""
    m, N = interp.m, interp.N
    if isinstance(p, str):
        return [(len(p), 1)]
    if p[0] == 'map':
        d = {}
        for t, g in p[1]:
            d[len(t)] = m.or_(d.get(len(t), 0), g)
        return sorted(d.items())
    spec, v = p[1], p[2]
    mt = SPEC.match(spec)
    fill, align, sign, alt, zero, width, comma, prec, typ = mt.groups()
    if alt or width or zero or sign == ' ':
        raise Unsupported('length of formatted integer')
    base = {'d': 10, '': 10, 'x': 16, 'X': 16, 'b': 2, 'o': 8}[typ]
    lo, hi = N.rng(v)
    out = {}

    def add(n, g):
        if g:
            out[n] = m.or_(out.get(n, 0), g)
    if hi.bit_length() > 70 or lo.bit_length() > 70:
        raise Unsupported('length of wide integer')
    neg = N.lt(v, 0)
    if hi >= 0:
        prev = 0
        k = 1
        while True:
            lt = m.and_(N.lt(v, base ** k), m.not_(neg))
            add(k + (1 if sign == '+' else 0), m.and_(lt, m.not_(prev)))
            prev = lt
            if hi < base ** k:
                break
            k += 1
    if lo < 0:
        prev = 0
        k = 1
        while True:
            gt = m.and_(N.lt(-(base ** k), v), neg)
            add(k + 1, m.and_(gt, m.not_(prev)))
            prev = gt
            if lo > -(base ** k):
                break
            k += 1
    return sorted(out.items())


def length(interp, s):
    """len(s) as an abstract integer."""
    if isinstance(s, str):
        return len(s)
    tot = 0
    for p in s.parts:
        d = len_dist(interp, p)
        tot = interp.N.add(tot, interp.N.lin(0, [(interp.m.and_(g, 1), n) for n, g in d]))
    return interp.N.simplify(tot, interp.pc)


def pad(interp, s, fill, align, width):
    if isinstance(s, str):
        n = width - len(s)
        if n <= 0:
            return s
        if align == '<':
            return s + fill * n
        if align == '>':
            return fill * n + s
        return fill * (n // 2) + s + fill * (n - n // 2)
    m = interp.m
    cur = {0: 1}
    for p in s.parts:
        d = len_dist(interp, p)
        nxt = {}
        for a, g in cur.items():
            for n, h in d:
                x = m.and_(g, h)
                if x:
                    nxt[a + n] = m.or_(nxt.get(a + n, 0), x)
        cur = nxt
        if len(cur) > 200:
            raise Unsupported('padding')
    pads = []
    for n, g in cur.items():
        g = m.and_(g, interp.pc)
        if g:
            pads.append((fill * max(0, width - n), g))
    if align == '^':
        l = mkmap(m, [(t[:len(t) // 2], g) for t, g in pads])
        r = mkmap(m, [(t[len(t) // 2:], g) for t, g in pads])
        return concat([l, s, r])
    p = mkmap(m, pads)
    return concat([s, p]) if align == '<' else concat([p, s])


def chars(interp, s):
    """Items of a text whose parts have fixed length."""
    if isinstance(s, str):
        return list(s)
    out = []
    m = interp.m
    for p in s.parts:
        if isinstance(p, str):
            out.extend(p)
            continue
        if p[0] != 'map':
            e = expand(interp, AStr((p,)))
            if e is None:
                raise Unsupported('characters of formatted integer')
            alts = e
        else:
            alts = [(t, g) for t, g in p[1] if m.and_(g, interp.pc)]
        ls = set(len(t) for t, g in alts)
        if len(ls) != 1:
            raise Unsupported('characters of variable text')
        for i in range(ls.pop()):
            out.append(mkmap(m, [(t[i], g) for t, g in alts]))
    return out


def subtext(interp, s, k):
    """s[k] for a text with parts of unknown length when k touches only the fixed ends, or None."""
    from .values import PSlice
    toks = []
    opaque = False
    for p in s.parts:
        try:
            toks.extend(chars(interp, norm([p])))
        except Unsupported:
            toks.append(('part', p))
            opaque = True
    if not opaque:
        return None
    if type(k) is int or type(k) is PSlice and all(x is None or type(x) is int for x in (k.start, k.stop, k.step)):
        e = expand(interp, s, cap=300)
        if e is not None and (type(k) is PSlice or all(-len(t) <= k < len(t) for t, g in e)):
            q = slice(k.start, k.stop, k.step) if type(k) is PSlice else k
            return mkmap(interp.m, [(t[q], g) for t, g in e])
    first = [i for i, x in enumerate(toks) if isinstance(x, tuple)]
    pre, post = first[0], len(toks) - 1 - first[-1]
    join = lambda ts: concat([AStr((x[1],)) if isinstance(x, tuple) else x for x in ts])
    if type(k) is int:
        if 0 <= k < pre or -post <= k < 0:
            return toks[k]
        return None
    if type(k) is not PSlice or k.step not in (None, 1):
        return None
    a, b = k.start, k.stop
    a = 0 if a is None else a
    if type(a) is not int or not (b is None or type(b) is int):
        return None
    if 0 <= a <= pre:
        if b is None:
            return join(toks[a:])
        if 0 <= b <= pre or -post <= b < 0:
            return join(toks[a:b])
    if -post <= a < 0 and (b is None or -post <= b < 0):
        return join(toks[a:b])
    return None


def first_chars(p):
    """Set of possible first characters of a part, or None (unknown/empty possible)."""
    if isinstance(p, str):
        return set(p[:1])
    if p[0] == 'map':
        if any(not t for t, _ in p[1]):
            return None
        return set(t[0] for t, _ in p[1])
    return set('-+ 0123456789abcdefABCDEF')


def alphabet(s):
    """Superset of the characters of s."""
    out = set()
    for p in parts_of(s):
        if isinstance(p, str):
            out |= set(p)
        elif p[0] == 'map':
            for t, _ in p[1]:
                out |= set(t)
        else:
            out |= set('-+0123456789' + ('abcdef' if 'x' in p[1] else 'ABCDEF' if 'X' in p[1] else ''))
            if '#' in p[1]:
                out |= set('xobX')
    return out


def split_signs(interp, s):
    """The same text with the sign of decimal numbers as a part of its own."""
    if isinstance(s, str):
        return s
    m, N = interp.m, interp.N
    out = []
    for p in s.parts:
        if not isinstance(p, str) and p[0] == 'fmt' and p[1] in ('d', '+d') and type(p[2]) is SI:
            v = p[2]
            neg = m.and_(N.lt(v, 0), 1)
            if p[1] == '+d' or m.and_(neg, interp.pc):
                sign = restrict(m, mkmap(m, [('-', neg), ('+' if p[1] == '+d' else '', m.not_(neg))]), interp.pc)
                out.extend(parts_of(sign))
                if m.and_(neg, interp.pc):
                    v = N.simplify(N.ite(neg, N.neg(v), v), interp.pc)
                if type(v) is SI:
                    out.append(('fmt', 'd', v))
                else:
                    out.append(format(v, 'd'))
                continue
        out.append(p)
    return norm(out)


def eq(interp, a, b):
    """Node for a == b, or None when the two texts cannot be aligned."""
    r = eq_(interp, a, b)
    if r is None:
        c, d = split_signs(interp, a), split_signs(interp, b)
        if c is not a and c != a or d is not b and d != b:
            r = eq_(interp, c, d)
    return r


def eq_(interp, a, b):
    m = interp.m
    if isinstance(a, str) and isinstance(b, str):
        return 1 if a == b else 0
    A, B = parts_of(a), parts_of(b)
    r = 1
    pc = interp.pc
    # greedy alignment from both ends
    for side in (0, -1):
        while A and B:
            x, y = A[side], B[side]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if side == 0:
                    if x[:n] != y[:n]:
                        return 0
                    x, y = x[n:], y[n:]
                else:
                    if x[-n:] != y[-n:]:
                        return 0
                    x, y = x[:len(x) - n], y[:len(y) - n]
                for L, q in ((A, x), (B, y)):
                    if q:
                        L[side] = q
                    else:
                        L.pop(side)
                continue
            if not isinstance(x, str) and not isinstance(y, str):
                if x == y:
                    A.pop(side)
                    B.pop(side)
                    continue
                if x[0] == 'map' and y[0] == 'map':
                    lx = set(len(t) for t, g in x[1] if m.and_(g, pc))
                    ly = set(len(t) for t, g in y[1] if m.and_(g, pc))
                    texts = set(t for t, g in x[1] if m.and_(g, pc)) | set(t for t, g in y[1] if m.and_(g, pc))
                    if (len(lx) == 1 and lx == ly) or (side == 0 and prefix_free(texts)):
                        r = m.and_(r, map_eq(m, x, y))
                        A.pop(side)
                        B.pop(side)
                        continue
                    if _same_under(m, x, y, pc):
                        A.pop(side)
                        B.pop(side)
                        continue
                elif x[0] == 'fmt' and y[0] == 'fmt' and x[1] == y[1]:
                    e = interp.N.eq(x[2], y[2])
                    if m.and_(pc, m.not_(e)) == 0:
                        A.pop(side)
                        B.pop(side)
                        continue
                    if len(A) == 1 and len(B) == 1:
                        r = m.and_(r, e)
                        A.pop(side)
                        B.pop(side)
                        continue
            break
    if not A and not B:
        return r
    # what is left: constants vs map ...
    if r != 1 and m.and_(pc, r) == 0:
        return 0
    pre_a, pre_b = first_const(A), first_const(B)
    if pre_a and pre_b:
        n = min(len(pre_a), len(pre_b))
        if pre_a[:n] != pre_b[:n]:
            return 0
    for P, Q in ((A, B), (B, A)):
        if P and Q and isinstance(P[0], str) and not isinstance(Q[0], str):
            f = first_chars(Q[0])
            if f is not None and P[0][0] not in f:
                return 0
        if not P and Q and any(isinstance(q, str) or q[0] == 'fmt' for q in Q):
            return 0
    care = m.and_(pc, r)
    ea = expand(interp, norm(A), care)
    eb = expand(interp, norm(B), care) if ea is not None else None
    if ea is None or eb is None:
        return None
    db = dict(eb)
    same = 0
    for t, g in ea:
        if t in db:
            same = m.or_(same, m.and_(g, db[t]))
    return m.and_(r, same)


def first_const(P):
    return P[0] if P and isinstance(P[0], str) else ''


def prefix_free(texts):
    ts = sorted(texts)
    for i in range(len(ts) - 1):
        if ts[i + 1].startswith(ts[i]) and ts[i] != ts[i + 1]:
            return False
    return True


def map_eq(m, x, y):
    d = dict(y[1])
    r = 0
    for t, g in x[1]:
        if t in d:
            r = m.or_(r, m.and_(g, d[t]))
    return r


def _same_under(m, x, y, pc):
    return m.and_(pc, m.not_(map_eq(m, x, y))) == 0


def evaluate(s, ev):
    """Concrete text at the point of an Evaluator."""
    if isinstance(s, str):
        return s
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == 'map':
            for t, g in p[1]:
                if ev.node(g):
                    out.append(t)
                    break
            else:
                return None
        else:
            out.append(format(ev.num(p[2]), p[1]))
    return ''.join(out)
