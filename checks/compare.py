"""Comparison of abstract values against expected ones: proved equal, different with a witness, or undecided."""
from absint.num import SI, SB, Unsupported
from absint.values import *
from absint.session import witness
from absint import text as T

import os
DEBUG = os.environ.get('VERIF_DEBUG')
MISSING = object()


def nodes_equal(m, a, b, care):
    return m.and_(care, m.xor(a, b)) == 0


def hexv(v):
    return '0x%x' % v if isinstance(v, int) and v >= 0 else repr(v)


class Cmp(object):
    def __init__(self, I, rep, unit, describe=None, only=None):
        self.only = only          # properties to decide (None: all)
        self.I, self.m, self.N = I, I.m, I.N
        self.rep, self.unit = rep, unit
        self.describe = describe or (lambda src, ev: {})

    def _wit(self, care, differ, hint):
        w = witness(self.m, care, differ, hint)
        return w

    def number(self, prop, rule, got, want, care, loc, what=''):
        """got == want for every state in care."""
        if self.only is not None and prop not in self.only:
            return True
        rep, N, m = self.rep, self.N, self.m
        if care == 0:
            return True
        g, w = N.simplify(got, care) if type(got) is SI else got, N.simplify(want, care) if type(want) is SI else want
        if type(g) in (bool, SB):
            g = N.b2i(g)
        bad = N.differ(g, w, care)
        if bad == 0:
            rep.good(prop, rule)
            return True

        def differ(ev):
            a, b = ev.num(g), ev.num(w)
            return (a, b) if a != b else None
        x = self._wit(care, differ, bad)
        if x is None:
            rep.undecided(prop, rule, self.unit, 'normal forms differ, no witness: %s' % what)
            return False
        src, ev, (a, b) = x
        d = self.describe(src, ev)
        d['got'], d['expected'] = hexv(a), hexv(b)
        rep.violation(prop, rule, self.unit, '%s is %s, expected %s' % (what, hexv(a), hexv(b)), loc, d)
        return False

    def node(self, prop, rule, got, want, care, loc, what=''):
        if self.only is not None and prop not in self.only:
            return True
        rep, m = self.rep, self.m
        if care == 0:
            return True
        bad = self.N.ndiffer(got, want, care)
        if bad == 0:
            rep.good(prop, rule)
            return True

        def differ(ev):
            a, b = ev.node(got), ev.node(want)
            return (a, b) if a != b else None
        x = self._wit(care, differ, bad)
        if x is None:
            rep.undecided(prop, rule, self.unit, 'normal forms differ, no witness: %s' % what)
            return False
        src, ev, (a, b) = x
        d = self.describe(src, ev)
        d['got'], d['expected'] = a, b
        rep.violation(prop, rule, self.unit, '%s is %d, expected %d' % (what, a, b), loc, d)
        return False

    def never(self, prop, rule, guard, care, loc, what):
        """guard never holds in care."""
        if self.only is not None and prop not in self.only:
            return True
        m = self.m
        bad = m.and_(guard, care)
        if bad == 0:
            self.rep.good(prop, rule)
            return True
        x = self._wit(care, lambda ev: (ev.node(guard),) if ev.node(guard) else None, bad)
        if x is None:
            self.rep.undecided(prop, rule, self.unit, 'feasibility of %s' % what)
            return False
        self.rep.violation(prop, rule, self.unit, what, loc, self.describe(x[0], x[1]))
        return False

    def raises(self, prop, rule, raised, care, allowed=()):
        """No exception other than those named is raised in care."""
        if self.only is not None and prop not in self.only:
            return True
        ok = True
        n = 0
        from absint.session import where
        for x in raised:
            if any(c.name in allowed for c in x.exc.cls.mro):
                continue
            g = self.m.and_(x.guard, care)
            if g == 0:
                continue
            n += 1
            args = x.exc.d.get('args')
            ok = self.never(prop, rule, x.guard, care, where(x.exc),
                            '%s(%s) escapes' % (x.name, text_of(args))) and ok
        if n == 0:
            self.rep.good(prop, rule)
        return ok

    def text(self, prop, rule, got, want, care, loc, loose=True):
        """Text equality in care (white space is not compared when loose)."""
        if self.only is not None and prop not in self.only:
            return True
        I, m = self.I, self.m
        if care == 0:
            return True
        got, miss = I.read(got, care)
        if miss:
            self.rep.undecided(prop, rule, self.unit, 'text missing for some states')
            return False
        ok = True
        for g, v in I.alts(got):
            c = m.and_(g, care)
            if c == 0:
                continue
            if not isinstance(v, (str, AStr)):
                ok = self.never(prop, rule, g, care, loc, 'result is %s, not a text' % I.nat.type_name(v)) and ok
                continue
            pc = I.pc
            I.pc = c
            try:
                a = T.restrict(m, v, c)
                b = T.restrict(m, want, c)
                e = T.eq(I, a, b)
            finally:
                I.pc = pc
            if e is not None and m.and_(c, m.not_(e)) == 0:
                self.rep.good(prop, rule)
                continue

            def differ(ev):
                x, y = T.evaluate(a, ev), T.evaluate(b, ev)
                if x is None or y is None:
                    return None
                if x == y or (loose and x.split() == y.split()):
                    return None
                return x, y
            hint = c if e is None else m.and_(c, m.not_(e))
            w = witness(m, c, differ, hint)
            if w is None:
                if DEBUG:
                    print('GOT', a, '\nWANT', b)
                    for q in (a, b):
                        print([p_ if isinstance(p_, str) else (p_[0], len(p_[1])) if p_[0] == 'map' else p_ for p_ in T.parts_of(q)])
                self.rep.undecided(prop, rule, self.unit, 'texts not comparable')
                ok = False
                continue
            d = self.describe(w[0], w[1])
            d['got'], d['expected'] = w[2]
            self.rep.violation(prop, rule, self.unit, 'text is %r, expected %r' % w[2], loc, d)
            ok = False
        return ok


def text_of(args):
    try:
        return ', '.join(str(a) if isinstance(a, (str, int)) else '...' for a in args)
    except TypeError:
        return ''
