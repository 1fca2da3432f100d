"""Confirm planted bugs and store them:  mkseed.py SPECFILE [id...]

SPECFILE defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python source)].
Each is applied to /repo, built, tested, demonstrated, checked with this property's check, and undone."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def undo():
    sh('git -C /repo checkout -- .')


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        assert sh('git -C /repo status --porcelain').stdout.strip() == ''
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nset -e\nPY=/opt/venv-pypy/bin/python\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="%s"\n' % s.get('path', '$PWD') +
                    'exec timeout 250 "$PY" "$D/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
        out = [s['id'], s['prop']]
        if s.get('path'):
            sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        out.append('clean demo %d' % r.returncode)
        if r.returncode:
            print(r.stdout[-600:])
        try:
            for file, old, new in s['edits']:
                p = '/repo/' + file
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], file, old, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            with open(d + '/patch.diff', 'w') as f:
                f.write(diff)
            b = sh('bash /opt/vp/build.sh')
            out.append('build %d' % b.returncode)
            if b.returncode:
                print(b.stdout[-500:])
            t = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
            out.append('tests ' + t.stdout.strip().splitlines()[-1])
            r = sh('bash %s/demo.sh' % d, cwd='/repo')
            out.append('demo %d' % r.returncode)
            if r.returncode == 0:
                print('DEMO DID NOT FAIL', r.stdout[-500:])
            c = sh('python3 run.py %s' % s['prop'], cwd=HERE)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('check %d (%d violations)' % (c.returncode, len(v)))
            if c.returncode != 1:
                print(c.stdout[-800:])
            elif '-v' in os.environ.get('V', ''):
                print(c.stdout[:900])
        finally:
            undo()
        print(' | '.join(out), flush=True)


main()
