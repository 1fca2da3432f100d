"""Further instruction phases: instructions as values, printed targets, undefined words, truncated input."""
import time
from absint.num import SI, SB, Unsupported, TooLarge
from absint.values import *
from absint.session import Session, Delegate, witness, where
from absint import text as T
from spec.kit import K
from spec.machine import Effects
from spec.thumb import ROWS
from . import instr
from .instr import (Unit, Fields, ROW, PHASES, exc_guard, loc_of, run_exec, run_format, expected_text, last_loc, plain_number)
from .report import Report
from .compare import Cmp


# ------------------------------------------------------- reachable state
def containers(v, out, seen):
    """Mutable containers reachable from v: id -> (container, label)."""
    stack = [(v, '')]
    while stack:
        v, lab = stack.pop()
        t = type(v)
        if t in (int, str, bool, SI, SB, AStr, float) or v is None or v is ABSENT:
            continue
        if id(v) in seen:
            continue
        seen[id(v)] = v
        if t is Choice:
            stack += [(a, lab) for g, a in v.alts]
        elif t in (tuple, list):
            stack += [(a, lab) for a in v]
        elif isinstance(v, PList):
            out[id(v.d)] = (v.d, lab)
            stack.append((v.d.get('data'), lab))
        elif isinstance(v, PDict):
            out[id(v.d)] = (v.d, lab)
            out[id(v.k)] = (v.k, lab)
            stack += [(a, lab) for a in list(v.d.values()) + list(v.k.values())]
        elif isinstance(v, Obj):
            out[id(v.d)] = (v.d, v.cls.name)
            stack += [(a, '%s.%s' % (v.cls.name, k)) for k, a in v.d.items()]
            stack.append((v.cls, lab))
        elif isinstance(v, PClass):
            out[id(v.ns)] = (v.ns, 'class ' + v.name)
            stack += [(a, 'class %s.%s' % (v.name, k)) for k, a in v.ns.items()]
            stack += [(b, lab) for b in v.bases]
        elif isinstance(v, PModule):
            out[id(v.ns)] = (v.ns, 'module ' + v.name)
            stack += [(a, '%s.%s' % (v.name, k)) for k, a in v.ns.items()]
        elif isinstance(v, PFunc):
            stack += [(a, lab) for a in list(v.defaults or ()) + list((v.kwdefaults or {}).values())]
            if v.env is not None:
                stack.append((v.env, lab))
        elif isinstance(v, Env):
            e = v
            d = getattr(e, 'd', None)
            if d is not None:
                out[id(d)] = (d, 'closure')
                stack += [(a, lab) for a in d.values()]
            if e.parent is not None:
                stack.append((e.parent, lab))
        elif isinstance(v, PBound):
            stack += [(v.func, lab), (v.self_, lab)]
        elif isinstance(v, PProperty):
            stack += [(a, lab) for a in (v.fget, v.fset, v.fdel)]
        elif isinstance(v, (PStatic, PClassMethod)):
            stack.append((v.f, lab))
        elif isinstance(v, PBytes):
            stack += [(a, lab) for a in v.items]


def changed(u, known, mark, care):
    """Labels of known containers whose content in care changed since journal position mark."""
    I, m = u.I, u.m
    first = {}
    for d, k, old in I.journal[mark:]:
        if id(d) in known and (id(d), k) not in first:
            first[(id(d), k)] = (d, k, old)
    out = []
    for d, k, old in first.values():
        if not same_value(u, old, d.get(k, ABSENT), care):
            out.append('%s.%s' % (known[id(d)][1], k))
    return sorted(set(out))


def whole(I, v):
    """Alternatives of a stored value, absence included."""
    if v is ABSENT:
        return [(1, ABSENT)]
    out = I.alts(v)
    rest = I.m.not_(I.m.any_([g for g, _ in out]))
    return out + [(rest, ABSENT)] if rest else out


def same_value(u, a, b, care, depth=0):
    I, m = u.I, u.m
    if a is b:
        return True
    if depth > 6:
        return False
    aa = [(m.and_(g, care), v) for g, v in whole(I, a)]
    bb = [(m.and_(g, care), v) for g, v in whole(I, b)]
    for g, v in aa:
        for h, w in bb:
            x = m.and_(g, h)
            if x == 0:
                continue
            if v is w:
                continue
            tv, tw = type(v), type(w)
            if tv in (int, SI) and tw in (int, SI):
                if u.N.differ(v, w, x) != 0:
                    return False
            elif tv is tuple and tw is tuple:
                if len(v) != len(w) or not all(same_value(u, p, q, x, depth + 1) for p, q in zip(v, w)):
                    return False
            elif tv is str and tw is str:
                if v != w:
                    return False
            elif tv in (bool, SB) and tw in (bool, SB):
                if u.N.differ(u.N.b2i(v), u.N.b2i(w), x) != 0:
                    return False
            else:
                return False
    return True


def module_state(S):
    ms = getattr(S, '_modstate', None)
    if ms is None:
        out, seen = {}, {}
        for mod in S.I.modules.values():
            containers(mod, out, seen)
        ms = S._modstate = (out, seen)
    return ms


def ph_value(u, props, what):
    """C18: executing / formatting leaves the instruction, the decoder and every module's state as they were."""
    I, m, c, row, rep = u.I, u.m, u.cmp, u.row, u.rep
    ins, live, raised = u.decode()
    live = m.and_(live, m.not_(m.and_(live, u.must)))
    if live == 0:
        return
    known = dict(module_state(u.S)[0])
    seen = dict(module_state(u.S)[1])
    containers(ins, known, seen)
    for mod in I.modules.values():
        containers(mod, known, {}) if False else None
    mark = I.jmark()
    I.pc = live
    if what == 'exec':
        d, ok, rs = run_exec(u, ins)
    else:
        s, ok, rs = run_format(u, ins)
    ch = changed(u, known, mark, m.and_(live, u.good))
    rule = 'executing changes no state of the instruction' if what == 'exec' else \
        'formatting changes no state of the instruction'
    if not ch:
        rep.good('C18', rule)
        return
    # some retained state changed: compare the later behaviour with a fresh copy's
    behave(u, ch, rule)


def observe(u, warm):
    I, m = u.I, u.m
    ins, live, raised = u.decode()
    live = m.and_(live, u.good)
    I.pc = live
    rs = []
    cls = u.cls_where(ins)
    if warm:
        d0, ok, r0 = run_exec(u, ins, '2')
        I.pc = live
        s0, ok, r1 = run_format(u, ins)
        I.pc = live
        rs += r0 + r1
    s, ok1, r2 = run_format(u, ins)
    I.pc = live
    d, ok2, r3 = run_exec(u, ins)
    I.pc = live
    s2, ok3, r4 = run_format(u, ins)
    return d, s, s2, m.all_([live, ok1, ok2, ok3]), live, rs + r2 + r3 + r4, cls


def behave(u, ch, rule, tell=None):
    o1 = observe(u, True)
    fresh(u.I)
    o2 = observe(u, False)
    compare(u, tell or always('C18'), o1, o2, ch, 'a fresh copy', 'after use', rule)


def always(prop):
    return lambda what, reg=None, same=False: [prop]         # whatever differs


def teller(u):
    """Which of the unit's properties a difference is about."""
    row = u.row
    fam = instr.FAMILY[row.kind]
    text = ['C02'] + (['C34'] if row in target_rows() else []) + (['C35'] if row in name_rows() else [])
    fixed = {'outcome': ['C01'], 'unpredictable': ['C03'], 'other': ['C05', 'C01'], 'mnemonic': ['C01'], 'identity': ['C04'], 'text': text,
             'fails': ['C17'], 'memory': [fam] if row.kind in ('load', 'store', 'multi', 'sys', 'msr') else ['C11'],
             'all': sorted(u.only or ())}

    def tell(what, reg=None, same=False):
        if what != 'register':
            out = fixed[what]
        elif type(reg) is int and reg == 15:
            out = ['C15'] if row.kind == 'branch' else ['C07'] + (['C14'] if row.kind == 'multi' else [])
        elif type(reg) is int and reg == 16:
            out = ['C10'] + (['C16'] if row.kind == 'msr' else [])
        else:
            out = ['C11'] if same else [fam] + (['C08'] if instr.shifted(row) else [])
        return [p for p in out if u.only is None or p in u.only]
    return tell


def again(u, props, ph):
    """The unit's properties again, for what is decoded, formatted or executed after other things (only if that leaves a trace)."""
    I, kept = u.I, u.watch
    u.watch = None
    tell = teller(u)
    rule = 'the same again after other instructions'
    try:
        if kept.get('decode'):
            history(u, kept['decode'], rule, None, tell, 10)
        ch = sorted(set(kept.get('exec', []) + kept.get('format', [])))
        if ch and not u.rep.only(props).bad:
            fresh(I)
            behave(u, ch, rule, tell)
            if not u.rep.only(props).bad:
                used(u, ch, rule, tell)
    finally:
        u.fm = u.cpu = None


def kinds_of_rows(u):
    """One encoding of every kind and set of fields."""
    out = {}
    for r in sorted(ROWS, key=lambda r: r is not u.row):
        out.setdefault((r.kind, frozenset(n for n in r.pat.fields if n in NAMED or n in ('list', 'W', 'imm8', 'S'))), r)
    return list(out.values())


def used(u, ch, rule, tell):
    """A formatter and a model that have served other instructions before."""
    I, S, row, rep = u.I, u.S, u.row, u.rep
    t0 = time.time()
    fresh(I)
    base = observe(u, False)
    bad = len(rep.bad)
    for r in kinds_of_rows(u):
        if time.time() - t0 > 10 or len(rep.bad) > bad:
            return
        ws = samples(Unit(S, r, rep, tag='q'), 1)
        for w in ws:
            fresh(I)
            o = fixed_unit(u, r, w, 'q')
            I.pc = 1
            o.fm, o.cpu = instr.new_formatter(u), I.call(S.get('cmdis.model', 'CpuModel'), [], {})
            ins, live, raised = o.decode()
            if live == 0:
                continue
            I.pc = live
            run_format(o, ins)
            I.pc = live
            run_exec(o, ins, '9')
            u.fm, u.cpu = o.fm, o.cpu
            got = observe(u, False)
            u.fm = u.cpu = None
            compare(u, tell, got, base, ch, 'one that served nothing before', 'after %0*x' % (2 * r.size, w), rule)


def fresh(I):
    """Undo everything, as for a fresh copy in a fresh state."""
    for d, k, old in reversed(I.journal):
        if old is ABSENT:
            d.pop(k, None)
        else:
            d[k] = old
    I.journal = []
    I.jbig = set()


def compare(u, tell, o1, o2, ch, ref, when, rule):
    """Two observations of the same instruction must agree."""
    I, m, N, c, row, rep = u.I, u.m, u.N, u.cmp, u.row, u.rep
    d1, s1, t1, ok1, live1, r1, cls = o1
    d2, s2, t2, ok2, live2, r2, cls2 = o2
    note = ' (changed: %s)' % ', '.join(ch)
    for prop in tell('fails'):
        c.never(prop, 'behaves like ' + ref, m.xor(ok1, ok2), m.and_(live1, live2), cls,
                '%s the instruction fails where %s does not%s' % (when, ref, note))
    care = m.and_(ok1, ok2)
    if care == 0:
        return
    good = True
    for a, b in ((s1, s2), (t1, t2)):
        for g, v in I.alts(b):
            x = m.and_(g, care)
            for prop in tell('text') if x and isinstance(v, (str, AStr)) else ():
                good = c.text(prop, 'same text as ' + ref, a, v, x, cls + note) and good
    done = []
    for g, i, v in d1.rlog + d2.rlog:
        if any(i is j or N.eq(i, j) == 1 for j in done):
            continue
        done.append(i)
        want = d2.fold(i, care)
        for prop in tell('register', i, N.differ(want, d2.initial(i), care) == 0):
            good = c.number(prop, 'same effect as ' + ref, d1.fold(i, care), want, care,
                            last_loc(d1) or cls, 'register %s %s%s'
                            % (i if type(i) is int else '(by index)', when, note)) and good
    e1 = [e for e in d1.mem if m.and_(e[0], care)]
    e2 = [e for e in d2.mem if m.and_(e[0], care)]

    def conc(ev, evs):
        return [(k, ev.num(a), s, ev.num(v) % (1 << s) if k == 'w' else None) for g, k, a, s, v in evs if ev.node(g)]

    def differ(ev):
        a, b = conc(ev, e1), conc(ev, e2)
        return (a, b) if a != b else None
    same = len(e1) == len(e2) and all(
        x[1] == y[1] and x[3] == y[3] and m.and_(care, m.xor(x[0], y[0])) == 0
        and N.differ(x[2], y[2], m.and_(care, x[0])) == 0
        and (x[1] == 'r' or N.differ(x[4], y[4], m.and_(care, x[0])) == 0) for x, y in zip(e1, e2))
    if not same and tell('memory'):
        w = witness(m, care, differ, care)
        good = False
        for prop in tell('memory'):
            if w is None:
                rep.undecided(prop, 'same effect as ' + ref, row.name, 'memory accesses not comparable')
                continue
            dsc = u.describe(w[0], w[1])
            dsc['got'], dsc['expected'] = [repr(x) for x in w[2]]
            rep.violation(prop, 'same effect as ' + ref, row.name, 'memory accesses %r, %s: %r' % (w[2][0], ref, w[2][1]),
                          cls, dsc)
    if good:
        for prop in tell('all'):
            rep.good(prop, rule)


# --------------------------------------------------------------- C48
def ph_pure(u, props):
    """C48: decoding leaves no trace that a later decode, or an instruction decoded before, could show."""
    I, m, row, rep = u.I, u.m, u.row, u.rep
    known = module_state(u.S)[0]
    mark = I.jmark()
    I.pc = u.valid
    u.decode()
    ch = changed(u, known, mark, u.valid)
    rule = 'decoding retains no state'
    if not ch:
        rep.good('C48', rule)
        return
    history(u, ch, rule)


def identity(u, ins):
    """Size, address and bytes of a decoded instruction as numbers (None where they cannot be read)."""
    I = u.I
    pc, out = I.pc, []
    for name in ('size', 'address', 'bytes'):
        v, ok, rs = I.run(lambda: I.getattr(ins, name))
        I.pc = pc
        if name == 'bytes' and ok == pc:
            v, ok, rs = I.run(lambda: I.nat.iter_items(I, v))
            I.pc = pc
        out.append(v if ok == pc else None)
    return out


def seen_ins(u, others, later):
    """Outcome, identity, text and effect of u's word with the other words decoded before (or after) it."""
    I, m = u.I, u.m

    def rest():
        for o in others:
            I.pc = o.valid if isinstance(o, Unit) else o.care
            o.decode()
    if not later:
        rest()
    ins, live, raised = u.decode()
    outcome = [live, exc_guard(m, raised, 'UndefinedInstructionError'), exc_guard(m, raised, 'UnpredictableError')]
    outcome.append(m.and_(m.any_([x.guard for x in raised]), m.not_(m.or_(outcome[1], outcome[2]))))
    if later:
        rest()
    live = m.and_(live, u.good)
    I.pc = live
    if live == 0:
        return outcome, None, None, None
    cls = u.cls_where(ins)
    ident = identity(u, ins)
    mn, ok, rs = I.run(lambda: I.getattr(ins, 'mnemonic'))
    mn = mn if ok == live else None
    I.pc = live
    s, ok1, r2 = run_format(u, ins)
    I.pc = live
    d, ok2, r3 = run_exec(u, ins)
    I.pc = live
    return outcome, ident, (d, s, s, m.all_([live, ok1, ok2]), live, r2 + r3, cls), mn


def samples(u, n):
    """Up to n particular words of u's encoding."""
    out = []
    for k in range(4 * n):
        x = witness(u.m, u.good, lambda ev: (u.word(ev),), u.good, seed=k)
        if x and x[2][0] not in out:
            out.append(x[2][0])
        if len(out) == n:
            break
    return out


def fixed_unit(u, row, w, tag):
    return Unit(u.S, row, u.rep, fix=dict((b, (w >> b) & 1) for b in range(row.size * 8)), tag=tag)


def particular(u, ch, tell, limit):
    """Particular words of every encoding, decoded before and after particular words of u's."""
    from spec.thumb import ROWS as ALL
    I, m, c, row, rep = u.I, u.m, u.cmp, u.row, u.rep
    t0 = time.time()
    fresh(I)
    near = lambda r: r.size != row.size or any(b in row.pat.fixed and row.pat.fixed[b] != v for b, v in dict(r.pat.fixed).items())
    others = []
    for r in sorted(ALL, key=near):
        if r.size == row.size:
            others += [(r, w) for w in samples(Unit(u.S, r, rep, tag='2'), 1 if near(r) else 3)]
    for w in samples(u, 2):
        me = fixed_unit(u, row, w, 'p')
        fresh(I)
        base = brief(me, None, False)
        for r, x in others:
            if time.time() - t0 > limit:
                return
            for later in (False, True):
                fresh(I)
                got = brief(me, fixed_unit(u, r, x, 'q'), later)
                if got != base and base is not None:
                    for prop in differing(tell, got, base):
                        rep.violation(prop, 'same outcome as a first decode', row.name, '%s is %s %s a decode of %s, and %s otherwise (changed: %s)' % (
                            '%0*x' % (2 * row.size, w), got, 'before' if later else 'after', '%0*x' % (2 * row.size, x), base, ', '.join(ch)),
                            'cmdis/decoder.py:DecoderTree.decode', {'word': '0x%x' % w, 'other': '0x%x' % x})
                    if rep.bad:
                        return


def differing(tell, got, base):
    """The properties that two outcomes of the same word (see brief) differ in."""
    ins = [isinstance(x, tuple) and len(x) == 4 for x in (got, base)]
    if ins == [True, True]:
        out = []
        if got[3] is not None and base[3] is not None and got[3] != base[3]:
            mn = [x[3][13:].split(' ')[0] for x in (got, base)]
            out += tell('mnemonic') if mn[0] != mn[1] else []
            out += tell('text')
        if got[1] is not base[1] and got[1] != base[1]:
            out += tell('identity')
        if not out and tell('mnemonic') == ['C48']:
            out = ['C48']
        return sorted(set(out))
    names = set(n for x, i in zip((got, base), ins) if not i and x for n in x)
    out = []
    for n in names:
        out += tell('outcome' if n == 'UndefinedInstructionError' else 'unpredictable' if n == 'UnpredictableError' else 'other')
    return sorted(set(out or tell('outcome')))


def brief(u, other, later):
    """Outcome, class, size and text of a particular word (None: not readable)."""
    I = u.I
    if other is not None and not later:
        other.decode()
    ins, live, raised = u.decode()
    if other is not None and later:
        I.pc = other.valid
        other.decode()
    if live != 1 or not isinstance(ins, Obj):
        return tuple(sorted(x.name for x in raised)) or None
    I.pc = 1
    size, _, _ = identity(u, ins)
    s, ok, rs = run_format(u, ins)
    return ins.cls.name, size, text_key(s)


def text_key(s):
    parts = T.parts_of(s) if isinstance(s, (str, AStr)) else None
    return None if parts is None else ''.join(p for p in parts if isinstance(p, str))


def same_name(c, u, prop, a, b, live, loc, what):
    for g, v in u.I.alts(b) if a is not None and b is not None else ():
        x = u.m.and_(g, live)
        if x and isinstance(v, (str, AStr)):
            c.text(prop, 'same mnemonic as a first decode', a, v, x, '%s (%s)' % (loc, what), loose=False)


def same_identity(c, u, prop, one, two, live, loc, when, note):
    I, m, row, rep = u.I, u.m, u.row, u.rep
    rule = 'same identity as a first decode'
    for n, a, b in zip(('size', 'address', 'bytes'), one, two):
        if a is None or b is None:
            if (a is None) != (b is None):
                rep.undecided(prop, rule, row.name, n)
            continue
        if n != 'bytes':
            plain_number(c, prop, rule, a, u.f.addr if n == 'address' else row.size, live, loc,
                         'the %s of an instruction decoded %s%s' % (n, when, note))
            continue
        for g, v in I.alts(a):
            for h, w in I.alts(b):
                x = m.all_([g, h, live])
                if x == 0:
                    continue
                if len(v) != len(w):
                    c.never(prop, rule, x, live, loc, 'the number of bytes differs %s%s' % (when, note))
                    continue
                for p, q in zip(v, w):
                    plain_number(c, prop, rule, p, q, x, loc, 'a byte of an instruction decoded %s%s' % (when, note))


def history(u, ch, rule, word=None, tell=always('C48'), limit=20):
    """Some retained state changed: compare with a first decode."""
    I, m, N, c, row, rep = u.I, u.m, u.N, u.cmp, u.row, u.rep
    from spec.thumb import ROWS as ALL
    # rows whose decoding touches the same state
    known = module_state(u.S)[0]
    names = []
    for r in ALL if word is None else ():
        fresh(I)
        o = Unit(u.S, r, rep, tag='2')
        I.pc = o.valid
        o.decode()
        if set(changed(o, known, 0, o.valid)) & set(ch):
            names.append(r)
    names.sort(key=lambda r: (r is not row, r.kind != row.kind))
    fresh(I)
    base = seen_ins(u, [], False)
    same = Unit(u.S, row, rep, tag='3')         # the same word at another address
    same.bits, same.valid, same.must, same.good = u.bits, u.valid, u.must, u.good
    cases = [('an undefined word', word())] if word else [('the same word', same)] + [(r.name, Unit(u.S, r, rep, tag='2')) for r in names[:6]]
    bad = len(rep.bad)
    if word is None:
        particular(u, ch, tell, limit * 3 // 5)
        fresh(I)
    t0 = time.time()
    for name, o in cases:
        for later in (False, True):
            if len(rep.bad) > bad:
                return
            if time.time() - t0 > limit:
                for prop in tell('all'):
                    rep.undecided(prop, rule, row.name, 'histories not exhausted (changed: %s)' % ', '.join(ch))
                return
            fresh(I)
            got = seen_ins(u, [o], later)
            when = '%s a decode of %s' % ('before' if later else 'after', name)
            note = ' (changed: %s)' % ', '.join(ch)
            loc = base[2][6] if base[2] else 'cmdis/decoder.py'
            for a, b, what, kd in zip(got[0], base[0], ('decodes', 'is undefined', 'is unpredictable', 'fails otherwise'),
                                      ('outcome', 'outcome', 'unpredictable', 'other')):
                for prop in tell(kd):
                    c.never(prop, 'same outcome as a first decode', m.xor(a, b), u.good, loc,
                            'whether the word %s changes %s%s' % (what, when, note))
            if not (got[2] and base[2]) or got[2][4] != base[2][4]:
                continue
            live = base[2][4]
            for prop in tell('mnemonic'):
                same_name(c, u, prop, got[3], base[3], live, loc, 'the mnemonic of an instruction decoded %s%s' % (when, note))
            for prop in tell('identity'):
                same_identity(c, u, prop, got[1], base[1], live, loc, when, note)
            compare(u, tell, got[2], base[2], ch, 'a first decode', when, rule)


# --------------------------------------------------------------- C34
TARGETS = ('b:cond', 'b:uncond', 'bl', 'adr')


def target_rows():
    return [r for r in ROWS if r.name in ('b', 'b:cond', 'b:uncond', 'bl') or r.name.startswith('adr')]


def moved(u, ins, live):
    """The same instruction given another address afterwards, and moved back."""
    I, m, N, c = u.I, u.m, u.N, u.cmp
    first = u.f.addr
    other = N.from_bits([m.atom(('addrB', b), 5, b) if b else 0 for b in range(32)])
    try:
        for addr, when in ((other, 'after another address was given to it'), (first, 'after its first address was given back')):
            I.pc = live
            r, ok, rs = I.run(lambda: I.setattr(ins, 'address', addr))
            I.pc = live
            if ok != live:
                return          # an instruction stays where it is
            s, ok, rs = run_format(u, ins)
            I.pc = live
            u.f.addr = addr
            c.raises('C34', 'printed target follows the address', rs, live)
            for x, t in expected_text(u):
                c.text('C34', 'printed target follows the address', s, t, m.all_([x, live, ok]), 'cmdis/formatter.py:LabelOperand.format')
    finally:
        u.f.addr = first


def ph_target(u, props):
    """C34 (unit with the instruction placed at the current PC)."""
    I, m, N, k, c, row, rep = u.I, u.m, u.N, u.k, u.cmp, u.row, u.rep
    ins, live, raised = u.decode()
    live = m.and_(live, u.good)
    if live == 0:
        return
    I.pc = live
    s, ok, rs = run_format(u, ins)
    I.pc = live
    d, ok2, rs2 = run_exec(u, ins)
    care = m.all_([live, ok, ok2])
    if care == 0:
        rep.undecided('C34', 'printed target', row.name, 'does not complete')
        return
    E = Effects(k, d, row.size)
    row.sem(k, u.f, E)
    if row.kind == 'branch':
        want, br, dest = E.final_pc()
        care = m.and_(care, br)
        got = d.fold(15, care)
    else:
        care = m.and_(care, m.not_(N.eq(u.f.d, 15)))
        want = E.final(u.f.d)
        got = d.fold(u.f.d, care)
    loc = last_loc(d, lambda e: True) or u.cls_where(ins)
    if N.differ(got, want, care) == 0:
        for x, t in expected_text(u):
            c.text('C34', 'printed target is the executed one', s, t, m.and_(x, care),
                   'cmdis/formatter.py:LabelOperand.format; ' + loc)
        moved(u, ins, live)
        return
    # executed target is not the reference one: the printed text must name the executed one
    rel = k.signed(k.mod32(N.sub(got, u.f.addr)), 32)
    saved = k.label
    k.label = lambda r, a: [(1, T.concat(['.', k.num(rel, '+d')]), (T.concat(['0x', k.num(k.mod32(got), 'x')]),))]
    try:
        exp = expected_text(u)
    finally:
        del k.label
    for x, t in exp:
        c.text('C34', 'printed target is the executed one', s, t, m.and_(x, care),
               'cmdis/formatter.py:LabelOperand.format; ' + loc)


# ------------------------------------------------- words of no encoding
class Rest(object):
    """Decoding of the words that no row describes."""

    def __init__(self, S, size, fix, rep, tag=''):
        self.S, self.rep, self.size, self.fix = S, rep, size, fix
        I = self.I = S.I if tag else S.begin(True)
        m, N = I.m, I.N
        self.m, self.N = m, N
        self.bits = [fix[b] if b in fix else m.atom(('w' + tag, b), 0, 0) for b in range(size * 8)]
        k = K(I)
        care = 1
        top = self.bits[11:16]
        wide = m.all_([top[4], top[3], top[2], m.or_(top[1], top[0])])
        care = wide if size == 4 else m.not_(wide)
        for row in ROWS:
            if care == 0:
                break
            if row.size != size:
                continue
            g = 1
            for b, v in row.pat.fixed.items():
                g = m.and_(g, self.bits[b] if v else m.not_(self.bits[b]))
                if g == 0:
                    break
            if g == 0 or m.and_(g, care) == 0:
                continue
            f = Fields()
            for n, (lo, w) in row.pat.fields.items():
                setattr(f, n, N.from_bits(self.bits[lo:lo + w]))
            if hasattr(f, 'dn') and not hasattr(f, 'd'):
                f.d = f.n = f.dn
            if hasattr(f, 'dm') and not hasattr(f, 'd'):
                f.d = f.m = f.dm
            f.addr = 0
            care = m.and_(care, m.not_(m.and_(g, m.not_(row.undef(k, f)))))
        self.care = care
        self.changed = None
        name = 'words of no encoding (%s)' % ''.join(
            '-' if type(fix.get(b)) is not int else str(fix[b]) for b in range(15, -1, -1))
        self.cmp = Cmp(I, rep, name, self.describe)

    def describe(self, src, ev):
        w = sum(ev.node(b) << i for i, b in enumerate(self.bits))
        return {'halfwords': ' '.join('%04x' % ((w >> (16 * i)) & 0xffff) for i in range(self.size // 2))}

    def decode(self):
        I, N = self.I, self.N
        I.pc = 1
        tree = self.S.get('cmdis.disasm', 'decoder')
        items = [N.from_bits(self.bits[8 * i:8 * i + 8]) for i in range(self.size)]
        I.pc = self.care
        return I.run(lambda: I.call(I.getattr(tree, 'decode'), [PByteArray(items, 1), 0x1000], {}))

    def run(self):
        I, m, N, c = self.I, self.m, self.N, self.cmp
        if self.care == 0:
            return
        mark = I.jmark()
        r, live, raised = self.decode()
        ch = changed(self, module_state(self.S)[0], mark, self.care)
        if ch:
            self.changed = ch
        else:
            c.rep.good('C48', 'decoding retains no state')
        loc = ''
        if live:
            for g, v in I.alts(r):
                if isinstance(v, Obj) and m.and_(g, live):
                    mn = v.d.get('_mnemonic')
                    f = v.cls.find('_eval')
                    loc += '%s %s; ' % (v.cls.name, mn if isinstance(mn, str) else '')
        c.never('C01', 'other words are undefined', live, self.care, 'cmdis/instructions.py:' + loc,
                'a word outside the supported encodings is decoded as %s' % loc)
        unp = exc_guard(m, raised, 'UnpredictableError')
        c.never('C01', 'other words are undefined', unp, self.care, loc_of(raised, 'UnpredictableError'),
                'a word outside the supported encodings is reported as unpredictable')
        c.raises('C05', 'documented errors only', raised, self.care, ('UndefinedInstructionError', 'UnpredictableError'))


def rest_tasks():
    out = []
    # 16-bit words by their upper four bits, 32-bit words by the upper 10 bits
    for v in range(16):
        out.append((2, dict((12 + i, (v >> i) & 1) for i in range(4))))
    for op1 in (1, 2, 3):
        for v in range(16):
            fix = {15: 1, 14: 1, 13: 1, 12: op1 >> 1, 11: op1 & 1}
            fix.update(dict((7 + i, (v >> i) & 1) for i in range(4)))
            out.append((4, fix))
    return out


def run_rest(S, size, fix, props=(), depth=0):
    rep = Report()
    rep.units.add('undefined words')
    try:
        r = Rest(S, size, fix, rep)
        r.run()
        if r.changed and props & {'C48', 'C01', 'C03', 'C05'}:
            t0 = time.time()
            for row in ROWS:
                if row.size != size:
                    continue
                if rep.only(props).bad or time.time() - t0 > 60:
                    break
                u = Unit(S, row, rep, only=props)
                history(u, r.changed, 'decoding retains no state', lambda: Rest(S, size, fix, rep, '2'), teller(u) if 'C48' not in props else always('C48'))
    except TooLarge as e:
        free = [b for b in range(15, -1, -1) if b not in fix] + [b for b in range(31, 15, -1) if b not in fix]
        free = [b for b in free if b < size * 8]
        if depth == 3 or not free:
            rep.undecided(None, 'other words are undefined', 'rest', 'not representable: %s' % e)
        else:
            rep = Report()
            for v in (0, 1):
                f2 = dict(fix)
                f2[free[0]] = v
                rep.merge(run_rest(S, size, f2, props, depth + 1))
    except Unsupported as e:
        rep.undecided(None, 'other words are undefined', 'rest', 'not representable: %s' % e)
    rep.touch(S.I)
    return rep


# ------------------------------------------------------ truncated input
def run_truncated(S, n, wide, kind):
    """Inputs of n bytes: fewer than the instruction needs."""
    rep = Report()
    rep.units.add('truncated input of %d bytes' % n)
    I = S.begin(True)
    m, N = I.m, I.N
    bits = [m.atom(('w', b), 0, 0) for b in range(8 * n)]
    care = 1
    if n >= 2:
        top = bits[11:16]
        w = m.all_([top[4], top[3], top[2], m.or_(top[1], top[0])])
        care = w if wide else m.not_(w)
    items = [N.from_bits(bits[8 * i:8 * i + 8]) for i in range(n)]
    data = {'bytearray': lambda: PByteArray(items, 1), 'bytes': lambda: PBytes(items), 'list': lambda: PList(items, 1)}[kind]()
    c = Cmp(I, rep, 'input of %d bytes%s' % (n, ' (32-bit prefix)' if wide else ''),
            lambda src, ev: {'bytes': ' '.join('%02x' % ev.num(x) for x in items)})
    tree = S.get('cmdis.disasm', 'decoder')
    I.pc = care
    try:
        r, live, raised = I.run(lambda: I.call(I.getattr(tree, 'decode'), [data, 0x1000], {}))
    except Unsupported as e:
        rep.undecided(None, 'truncated input', c.unit, str(e))
        return rep
    loc = loc_of(raised, 'UndefinedInstructionError')
    if n < 2 or wide:
        c.never('C05', 'truncated input is undefined', live, care, 'cmdis/decoder.py:DecoderTree.decode',
                'an input of %d bytes is decoded' % n)
        c.raises('C05', 'documented errors only', raised, care, ('UndefinedInstructionError',))
    else:
        c.raises('C05', 'documented errors only', raised, care, ('UndefinedInstructionError', 'UnpredictableError'))
    rep.touch(S.I)
    return rep


TRUNC = [(0, False), (1, False), (2, True), (3, True), (3, False), (2, False)]

def run_served(S, n, props):
    """C02: a formatter that has formatted one instruction of every kind before: particular words, in pairs."""
    rep = Report()
    rep.units.add('formatter that has served others')
    rule = 'the same text from a formatter that served another instruction'
    I = S.begin(True)
    probe = Unit(S, ROWS[0], rep)
    todo = []
    for r in kinds_of_rows(probe):
        todo += [(r, w) for w in samples(Unit(S, r, rep, tag='q'), 2)]

    def text(fm, u):
        I.pc = 1
        ins, live, raised = u.decode()
        if live != 1:
            return None
        u.fm = fm
        I.pc = 1
        s, ok, rs = run_format(u, ins)
        return ('fails', tuple(x.name for x in rs)) if ok != 1 else text_key(s)
    for i, (r, w) in enumerate(todo):
        if i % 8 != n:
            continue
        me = fixed_unit(probe, r, w, 'p')
        I.pc = 1
        want = text(None, me)
        for q, x in todo:
            I.pc = 1
            fm = instr.new_formatter(probe)
            text(fm, fixed_unit(probe, q, x, 'q'))
            got = text(fm, me)
            if got == want or want is None or got is None:
                rep.good('C02', rule)
            else:
                rep.violation('C02', rule, r.name, '%0*x is shown as %r after %0*x, and as %r by a new formatter' % (
                    2 * r.size, w, got, 2 * q.size, x, want), 'cmdis/formatter.py:Formatter.format', {'word': '0x%x' % w, 'before': '0x%x' % x})
                return rep
    rep.touch(I)
    return rep


PHASES['value-exec'] = lambda u, props: ph_value(u, props, 'exec')
PHASES['value-format'] = lambda u, props: ph_value(u, props, 'format')
PHASES['target'] = ph_target
PHASES['pure'] = ph_pure


# ------------------------------------------------------------ C35: operand names
NAMED = ('sysm', 'mask', 'option', 'im', 'I', 'F', 'type', 'imm3', 'imm2', 'rotate')
OTHER = {'d': 1, 'n': 2, 'm': 3, 't': 4, 'S': 0}


def name_rows():
    return [r for r in ROW.values() if r.name in ('mrs', 'msr', 'dsb', 'dmb', 'isb', 'cps') or 'type' in r.pat.fields or
            'rotate' in r.pat.fields or r.name.endswith(':reg') and 'imm2' in r.pat.fields]


def ph_names(u, props):
    I, m, c, row, k, N = u.I, u.m, u.cmp, u.row, u.k, u.N
    r, live, raised = u.decode()
    if live == 0:
        return
    I.pc = live
    s, ok, rs = run_format(u, r)
    if ok == 0:
        return
    care = m.and_(live, m.not_(u.must))
    c.raises('C35', 'formatting completes', rs, care)
    for x, want in expected_text(u):
        c.text('C35', 'operand name', s, want, m.and_(x, ok), 'cmdis/formatter.py and the decoding of %s' % row.name)
    # the reference texts tell the operands apart, hence so do the printed ones
    g0 = u.good
    for n, (lo, w) in row.pat.fields.items():
        if n not in NAMED:
            g0 = m.and_(g0, N.eq(getattr(u.f, n), OTHER.get(n, 0)))
    bits = [b for n in NAMED if n in row.pat.fields for b in u.bits[row.pat.fields[n][0]:][:row.pat.fields[n][1]]]
    code = N.from_bits(bits)
    mn = row.mnem(k, u.f) if callable(row.mnem) else [(row.mnem, 1)]
    seen = {}
    for g, ts, cs in k.product(row.ops(k, u.f)):
        for t, h in mn:
            x = m.all_([g, h, g0])
            if x == 0:
                continue
            e = T.expand(I, T.concat([t, ' '] + [y for o in ts for y in (o, ',')]), x)
            if e is None:
                c.rep.undecided('C35', 'names are distinct', row.name, 'texts not enumerable')
                continue
            for text, gg in e:
                seen[text] = m.or_(seen.get(text, 0), gg)
    for text, g in sorted(seen.items()):
        vals = N.values(code, g, 3)
        if vals is not None and len(vals) == 1:
            c.rep.good('C35', 'names are distinct')
        else:
            c.rep.undecided('C35', 'names are distinct', row.name, 'reference text %r for several operands' % text)


PHASES['names'] = ph_names
