"""Behaviour-preserving rewrites:  refactor.py SPECFILE OUTDIR   writes one scratch tree per group of edits, runs the tests and then
every check on each; prints alarms and answers other than 'quiet'.  SPECFILE defines GROUPS = {name: (file, [(old, new), ...], checks)}."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
spec, out = {}, sys.argv[2]
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[3:]
HERE = os.environ.get('MUT_VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ONLY = os.environ.get('ONLY', '').split()


def summary(p):
    l = [x for x in p.stdout.splitlines() if re.match(r'C\d\d: ', x)]
    return l[-1] if l else '(no summary)'


def main():
    for name, (file, edits, checks) in spec['GROUPS'].items():
        if only and name not in only:
            continue
        d = '%s/%s' % (out, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s; cp /repo/cmdis/_version.py %s/cmdis/' % (d, d), shell=True, check=True)
        p = '%s/cmdis/%s.py' % (d, file)
        s = open(p).read()
        bad = 0
        for old, new in edits:
            if s.count(old) != 1:
                print('%s: %d matches of %r' % (name, s.count(old), old[:70]))
                bad = 1
                continue
            s = s.replace(old, new)
        open(p, 'w').write(s)
        if bad:
            continue
        r = subprocess.run('. /opt/vp/env.sh; cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s "$PY" -m pytest -q -x --tb=short -p no:cacheprovider 2>&1 | tail -12' % (d, d),
                           shell=True, stdout=subprocess.PIPE, universal_newlines=True, executable='/bin/bash')
        tail = r.stdout.strip().splitlines()
        print('== %s: %s' % (name, tail[-1] if tail else '?'))
        if 'passed' not in tail[-1] or 'failed' in tail[-1]:
            print('\n'.join(tail))
        for c in [c for c in checks if not ONLY or c in ONLY]:
            env = dict(os.environ, VERIF_REPO=d, VERIF_DEBUG='1')
            p = subprocess.run([sys.executable, HERE + '/run.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            line = summary(p)
            if p.returncode or ' 0 undecided' not in line:
                print('%s rc=%d %s' % (c, p.returncode, line))
                for x in [x for x in p.stdout.splitlines() if 'undecided:' in x or x.startswith(('  rule', 'ERROR', '  the', 'Trace'))][:4]:
                    print('     ', x[:300])
                if p.returncode == 2 or '(no' in line:
                    print(p.stdout[-600:])
        sys.stdout.flush()


main()
