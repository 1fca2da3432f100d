#!/usr/bin/env python3
"""Decide one property of /repo's current source:  run.py C01 [--tier quick|thorough] [--jobs N]

Exit 0: every decided obligation holds.  Exit 1: VIOLATION line(s).  Exit 2: nothing could be analysed."""
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from absint.load import REPO
from absint.num import Unsupported
from absint.session import Session, EntryMissing, InitFailed, where
from checks.report import Report
from checks import registry

KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
TASK_LIMIT = 200
TOTAL_LIMIT = 700
FOUND_LIMIT = 240
_S = {}


class Expired(Unsupported):
    pass


def on_alarm(sig, frame):
    raise Expired('time limit of the unit')


def session(modules):
    if modules not in _S:
        _S[modules] = Session(modules=modules)
    return _S[modules]


def work(item):
    i, (modules, fn, args), props = item
    rep = Report()
    t = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(TASK_LIMIT)
    name = '%s%r' % (fn, args)
    try:
        r = registry.call(fn, session(modules), args, props)
        rep.merge(r.only(props))
    except EntryMissing as e:
        rep.undecided(None, 'entry point', name, 'missing: %s' % e)
    except (Unsupported, MemoryError, RecursionError) as e:
        rep.undecided(None, 'unit', name, 'not representable: %s' % e)
    except Exception as e:
        rep.undecided(None, 'unit', name, 'analysis failed: %s: %s' % (type(e).__name__, e))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    rep.time = time.time() - t
    return i, rep


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def keyof(b):
    return re.sub(r'\s+', '_', b['key'])


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    jobs = min(8, os.cpu_count() or 1)
    a = argv[1:]
    while a:
        o = a.pop(0)
        if o == '--tier':
            tier = a.pop(0)
        elif o == '--jobs':
            jobs = int(a.pop(0))
    t0 = time.time()
    props = {prop}
    spec = registry.PROPS[prop]
    tasks = spec.tasks(tier)
    rep = Report()
    times = []
    init = None
    for modules in sorted(set(t[0] for t in tasks if t[0])):
        try:
            session(modules)
        except InitFailed as e:
            init = '%s cannot be loaded: %s' % (e.name, '; '.join('%s at %s' % (x.name, where(x.exc)) for x in e.raised))
        except Unsupported as e:
            init = 'module initialisation not representable: %s' % e
    if init:
        print('ERROR property=%s %s' % (prop, init))
        rep.undecided(prop, 'initialisation', 'package', init)
    else:
        items = [(i, t, props) for i, t in enumerate(tasks)]
        if jobs == 1:
            for it in items:
                i, r = work(it)
                times.append((r.time, tasks[i][1], tasks[i][2]))
                rep.merge(r)
        else:
            pool = multiprocessing.get_context('fork').Pool(jobs)
            done = set()
            listed = set(k[:2] for k in known_findings())
            try:
                res = pool.imap_unordered(work, items)
                for _ in items:
                    # once something is refuted there is little point in waiting for slow units
                    left = (FOUND_LIMIT if any((prop, keyof(b)) not in listed for b in rep.bad) else TOTAL_LIMIT) - (time.time() - t0)
                    i, r = res.next(timeout=max(1, left))
                    done.add(i)
                    times.append((r.time, tasks[i][1], tasks[i][2]))
                    rep.merge(r)
            except multiprocessing.TimeoutError:
                for i, t in enumerate(tasks):
                    if i not in done:
                        rep.undecided(None, 'unit', '%s%r' % (t[1], t[2]), 'time limit of the check')
            finally:
                pool.terminate()
                pool.join()
    wall = time.time() - t0
    return finish(prop, tier, spec, rep, tasks, times, wall)


def finish(prop, tier, spec, rep, tasks, times, wall):
    known = [k for k in known_findings() if k[0] == prop]
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    new, seen = [], {}
    for b in rep.bad:
        hit = [k for k in known if k[1] == keyof(b)]
        if hit:
            seen[hit[0]] = b
        else:
            new.append(b)
    # one report per construct and rule
    uniq = {}
    for b in new:
        uniq.setdefault((b['key'], b['where']), b)
    new = list(uniq.values())
    for k, b in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k[2], b['where']))
    discharged = sum(rep.ok.values())
    rules = {}
    for (p, r), n in sorted(rep.ok.items()):
        rules[r] = {'discharged': n}
    for b in rep.bad:
        rules.setdefault(b['rule'], {'discharged': 0})
        rules[b['rule']]['violated'] = rules[b['rule']].get('violated', 0) + 1
    for b in rep.open:
        rules.setdefault(b['rule'], {'discharged': 0})
        rules[b['rule']]['undecided'] = rules[b['rule']].get('undecided', 0) + 1
    obligations = discharged + len(rep.bad) + len(rep.open)
    cov = {
        'explanation': spec.explanation,
        'obligations': obligations,
        'discharged': discharged,
        'violated_new': len(new),
        'violated_known': len(seen),
        'undecided': len(rep.open),
        'undecided_items': [dict(unit=o['unit'], rule=o['rule'], why=o['why'][:200]) for o in rep.open[:40]],
        'analysis_tasks': len(tasks),
        'units': len(rep.units),
        'unit_names': sorted(rep.units)[:400],
        'functions_analysed': len(rep.functions),
        'functions': sorted(rep.functions)[:400],
        'rules': rules,
        'slowest_tasks': ['%.1fs %s%r' % (t, f, a) for t, f, a in sorted(times, key=lambda x: -x[0])[:5]],
        'samples': spec.samples(rep),
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': spec.assumptions, 'wall_s': round(wall, 2), 'violations': len(new)}
    for n, b in enumerate(new[:20]):
        path = os.path.join(ev_dir, 'replay_%s_%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(b, f, indent=1, default=repr)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  rule: %s | unit: %s | at: %s' % (b['rule'], b['unit'], b['where']))
        print('  %s' % b['what'])
        if b['witness']:
            print('  for: %s' % ', '.join('%s=%s' % kv for kv in sorted(b['witness'].items())))
    with open(os.path.join(ev_dir, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s: %d obligations, %d discharged, %d violated (%d known), %d undecided; %d units, %d functions, %.1f s'
          % (prop, obligations, discharged, len(rep.bad), len(seen), len(rep.open), len(rep.units), len(rep.functions), wall))
    for o in rep.open[:5]:
        print('  undecided: %s / %s: %s' % (o['unit'], o['rule'], o['why'][:160]))
    if new:
        return 1
    if discharged == 0:
        print('ERROR property=%s nothing was decided' % prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
