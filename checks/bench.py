"""Bench for library-level obligations: symbolic inputs through driver functions, expectations on results."""
from absint.num import SI, SB, Unsupported, TooLarge
from absint.values import *
from absint.session import Session, witness, where
from absint import text as T
from spec.kit import K
from .report import Report
from .compare import Cmp, text_of, hexv


class Bench(object):
    def __init__(self, S, drv, rep, unit, only):
        self.S, self.drv, self.rep, self.only = S, drv, rep, only
        self.I = S.begin(True)
        self.m, self.N = self.I.m, self.I.N
        self.k = K(self.I)
        self.shown = []
        self.cmp = Cmp(self.I, rep, unit, self.describe, only)
        self.care = 1
        self.loc = ''

    @property
    def unit(self):
        return self.cmp.unit

    @unit.setter
    def unit(self, u):
        self.cmp.unit = u
        self.rep.units.add(u)

    def wants(self, *props):
        return self.only is None or any(p in self.only for p in props)

    def describe(self, src, ev):
        out = {}
        for n, v in self.shown:
            try:
                out[n] = hexv(ev.num(v)) if type(v) in (int, SI) else repr(T.evaluate(v, ev))
            except Exception:
                pass
        return out

    # ---- inputs
    def sym(self, name, w, signed=False):
        v = self.S.sym(name, w, signed=signed)
        self.shown.append((name, v))
        return v

    def bits(self, v, w):
        return self.N.bits(v, w)

    def bintext(self, v, w):
        """The w-digit binary text of v."""
        b = self.bits(v, w)
        return T.concat([T.mkmap(self.m, [('1', n), ('0', self.m.not_(n))]) for n in reversed(b)])

    # ---- running
    def run(self, fn, *args):
        """(result, live, raised) of a driver function under the current care."""
        I = self.I
        I.pc = self.care
        f = self.S.get(self.drv, fn)
        r, live, raised = I.run(lambda: I.call(f, list(args), {}))
        I.pc = self.care
        return r, live, raised

    def value(self, fn, *args):
        """Result of a driver function that must not fail; else Unsupported."""
        r, live, raised = self.run(fn, *args)
        if live != self.care:
            raise Unsupported('setup %s fails' % fn)
        return r

    # ---- expectations
    def num(self, props, rule, got, want, care=None, what=''):
        """got is the plain integer want."""
        care = self.care if care is None else care
        I, m, c = self.I, self.m, self.cmp
        for p in props:
            if not self.wants(p):
                continue
            for g, v in I.alts(got):
                g = m.and_(g, care)
                if g == 0:
                    continue
                if type(v) in (bool, SB):
                    v = self.N.b2i(v)
                if type(v) in (int, SI):
                    c.number(p, rule, v, want, g, self.loc, what or 'result')
                else:
                    c.never(p, rule, g, care, self.loc, '%s is of type %s' % (what or 'result', I.nat.type_name(v)))

    def boolean(self, props, rule, got, want, care=None, what=''):
        """got is the Boolean want (a node)."""
        care = self.care if care is None else care
        I, m, c = self.I, self.m, self.cmp
        for p in props:
            if not self.wants(p):
                continue
            for g, v in I.alts(got):
                g = m.and_(g, care)
                if g == 0:
                    continue
                if type(v) in (bool, SB):
                    n = I.truth(v)
                    c.node(p, rule, n, want, g, self.loc, what or 'answer')
                else:
                    c.never(p, rule, g, care, self.loc, '%s is of type %s' % (what or 'answer', I.nat.type_name(v)))

    def fine(self, props, rule, raised, care=None):
        """Nothing is raised."""
        for p in props:
            self.cmp.raises(p, rule, raised, self.care if care is None else care)

    def refused(self, props, rule, live, raised, names, care=None, what=''):
        """The call raises one of the named exceptions."""
        care = self.care if care is None else care
        for p in props:
            if not self.wants(p):
                continue
            self.cmp.never(p, rule, live, care, self.loc, '%s is accepted' % what)
            self.cmp.raises(p, rule, raised, care, names)

    def text(self, props, rule, got, want, care=None):
        for p in props:
            if self.wants(p):
                self.cmp.text(p, rule, got, want, self.care if care is None else care, self.loc, loose=False)


def guarded(rep, fn, *args):
    """Run one case; what the analysis cannot represent is undecided."""
    try:
        fn(*args)
    except Unsupported as e:
        rep.undecided(None, 'unit', getattr(fn, '__name__', 'case'), 'not representable: %s' % e)
