"""Obligations and their outcome."""


class Report(object):
    def __init__(self):
        self.ok = {}          # (property, rule) -> count
        self.bad = []         # violations
        self.open = []        # undecided
        self.known = []       # violations matched by the known-findings file (filled by the driver)
        self.units = set()
        self.functions = set()

    def good(self, prop, rule, n=1):
        self.ok[(prop, rule)] = self.ok.get((prop, rule), 0) + n

    def violation(self, prop, rule, unit, what, loc, witness=None, key=None):
        self.bad.append({'property': prop, 'rule': rule, 'unit': unit, 'what': what, 'where': loc,
                         'witness': witness or {}, 'key': key or ('%s/%s' % (unit, rule))})

    def undecided(self, prop, rule, unit, why):
        self.open.append({'property': prop, 'rule': rule, 'unit': unit, 'why': why})

    def merge(self, o):
        for k, v in o.ok.items():
            self.ok[k] = self.ok.get(k, 0) + v
        self.bad += o.bad
        self.open += o.open
        self.units |= o.units
        self.functions |= o.functions

    def touch(self, I):
        """Record the functions of the package that this unit analysed."""
        for f in I.touched:
            mod = getattr(f, 'module', None)
            file = getattr(mod, 'file', None)
            if file:
                self.functions.add('%s:%s' % (file, f.qual))

    def only(self, props):
        """Drop everything that is not about the given properties."""
        r = Report()
        r.ok = dict((k, v) for k, v in self.ok.items() if k[0] in props)
        r.bad = [b for b in self.bad if b['property'] in props]
        r.open = [b for b in self.open if b['property'] in props or b['property'] is None]
        r.units, r.functions = self.units, self.functions
        return r
