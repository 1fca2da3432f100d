"""Mutation campaign:  mutate.py OUTDIR COUNT SEED [file ...]

Makes small token-level changes in scratch copies of /repo, keeps the ones the existing tests pass on, runs the checks of a copy of
/verif against them and records which check reports each (OUTDIR/results.jsonl)."""
import io, json, os, random, shutil, subprocess, sys, tokenize
from concurrent.futures import ThreadPoolExecutor

OUT, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:] or ['bitstring', 'decoder', 'disasm', 'formatter', 'helpers', 'instructions', 'mock_cpu', 'model', 'registers', 'utilities', '__main__']
SNAP = os.environ.get('MUT_SNAP', '/repo')
VER = os.environ.get('MUT_VERIF', '/verif')
INSTR = 'C01 C03 C04 C05 C08 C12 C13 C15 C16 C09 C34 C35 C10 C11 C14 C07 C02 C17 C18'.split()
BITS = 'C19 C20 C21 C22 C23 C24 C25 C26 C27'.split()
REL = {
    'instructions': INSTR + ['C40'],
    'decoder': ['C01', 'C39', 'C03', 'C04', 'C05', 'C06', 'C17', 'C18', 'C40'],
    'disasm': ['C06', 'C05', 'C34', 'C46', 'C40'],
    'formatter': ['C02', 'C34', 'C35', 'C17', 'C18', 'C40'],
    'helpers': ['C27', 'C09', 'C08', 'C10', 'C15', 'C40'],
    'bitstring': BITS + ['C08', 'C02', 'C40'],
    'mock_cpu': ['C32', 'C33', 'C31', 'C30', 'C28', 'C40', 'C45'],
    'model': ['C28', 'C29', 'C30', 'C31', 'C10', 'C16', 'C15', 'C07', 'C11', 'C12', 'C13', 'C14', 'C40'],
    'registers': ['C28', 'C29', 'C02', 'C35', 'C16', 'C14', 'C47', 'C44', 'C40'],
    'utilities': ['C38', 'C37', 'C45', 'C40'],
    '__main__': ['C36', 'C37', 'C44', 'C45', 'C46', 'C47', 'C40'],
}
SWAP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['+'], '&': ['|'], '|': ['&'], '^': ['|'],
        '<<': ['>>'], '>>': ['<<'], '//': ['*'], '%': ['//'], '+=': ['-='], '-=': ['+='], '|=': ['&='], '&=': ['|='], 'and': ['or'], 'or': ['and'],
        'True': ['False'], 'False': ['True'], 'not': [''], 'in': ['not in'], 'is': ['is not'], 'break': ['pass'], 'continue': ['pass'], 'self': []}
NAMES = [('n', 'm'), ('d', 'n'), ('Rn', 'Rm'), ('lo', 'hi'), ('start', 'stop'), ('x', 'y'), ('carry', 'overflow'), ('add', 'index'), ('index', 'wback'),
         ('imm32', 'imm8'), ('address', 'offset_addr'), ('t', 'n'), ('read8', 'read16'), ('read16', 'read32'), ('write8', 'write16'), ('write16', 'write32'),
         ('SignExtend', 'ZeroExtend'), ('signed', 'unsigned'), ('n_flag', 'z_flag'), ('c_flag', 'v_flag'), ('width', 'size'), ('min', 'max'), ('first', 'second'),
         ('lower', 'upper'), ('debug', 'info'), ('left', 'right'), ('msp', 'psp'), ('little', 'big'), ('zero_extend', 'sign_extend'), ('hw1', 'hw2'), ('base', 'length')]
NM = {}
for a, b in NAMES:
    NM.setdefault(a, []).append(b)
    NM.setdefault(b, []).append(a)


def mutants(file):
    src = open(SNAP + '/cmdis/%s.py' % file).read()
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    out = []

    def put(t, new, why):
        a = off[t.start[0] - 1] + t.start[1]
        b = off[t.end[0] - 1] + t.end[1]
        out.append((file, t.start[0], a, b, new, why))
    for i, t in enumerate(toks):
        s = t.string
        if t.type in (tokenize.OP, tokenize.NAME):
            for n in SWAP.get(s, ()):
                if s in ('in',) and any(x.string == 'for' and x.start[0] == t.start[0] for x in toks[max(0, i - 12):i]):
                    continue
                put(t, n, s + '->' + n)
            for n in NM.get(s, ()):
                if any(x.string == n and abs(x.start[0] - t.start[0]) < 25 for x in toks[max(0, i - 250):i + 250]):
                    put(t, n, s + '->' + n)
        elif t.type == tokenize.NUMBER:
            try:
                v = int(s, 0)
            except ValueError:
                continue
            put(t, str(v + 1), s + '->+1')
            if v > 0:
                put(t, str(v - 1), s + '->-1')
        elif t.type == tokenize.STRING and len(s) < 80 and not s.startswith(('"""', "'''")) and len(s) > 4:
            k = len(s) // 2
            if s[k] in '01':
                put(t, s[:k] + ('1' if s[k] == '0' else '0') + s[k + 1:], 'str')
            elif s[k].isalpha():
                put(t, s[:k] + ('x' if s[k] != 'x' else 'y') + s[k + 1:], 'str')
    depth = 0
    for k, l in enumerate(lines):
        st = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if ind and st and not st.endswith((':', ',', '(', '\\')) and not st.startswith(('#', 'def ', 'class ', '@', 'else', 'elif', 'return', '"', "'", ')', 'import', 'from')):
            if l.count('(') == l.count(')') and l.count('[') == l.count(']'):
                out.append((file, k + 1, off[k], off[k + 1], ind + 'pass\n', 'del: ' + st[:50]))
    return out


def build(i, m):
    d = '%s/w%03d' % (OUT, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('cd %s; cp -a cmdis test setup.py README.md tox.ini %s/' % (SNAP, d), shell=True, check=True)
    p = '%s/cmdis/%s.py' % (d, m[0])
    s = open(p).read()
    s2 = s[:m[2]] + m[4] + s[m[3]:]
    open(p, 'w').write(s2)
    return d


PASS = None


def tests(d):
    try:
        r = subprocess.run('. /opt/vp/env.sh; cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s "$PY" -m pytest -q -x --tb=no -p no:cacheprovider --timeout=20 %s 2>&1 | tail -3' % (d, d, DESEL),
                           shell=True, stdout=subprocess.PIPE, universal_newlines=True, timeout=90, executable='/bin/bash')
    except subprocess.TimeoutExpired:
        return 'timeout'
    return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else '?'


DESEL = ''


def py_ok(d, m):
    if m[0] == '__main__':
        return subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys;sys.path.insert(0,%r);from absint.load import to3;to3(sys.argv[1],open(sys.argv[1]).read())' % VER, d + '/cmdis/__main__.py'],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    return subprocess.run([sys.executable, '-c', 'import ast,sys;ast.parse(open(sys.argv[1]).read())', '%s/cmdis/%s.py' % (d, m[0])], stderr=subprocess.DEVNULL).returncode == 0


def main():
    os.makedirs(OUT, exist_ok=True)
    rnd = random.Random(SEED)
    allm = []
    for f in FILES:
        ms = mutants(f)
        rnd.shuffle(ms)
        allm.append(ms)
    pick = []
    weights = [max(1, int(len(m) ** 0.5)) for m in allm]
    while len(pick) < COUNT and any(allm):
        k = rnd.choices(range(len(allm)), [w if a else 0 for w, a in zip(weights, allm)])[0]
        pick.append(allm[k].pop())
    with open(OUT + '/plan.json', 'w') as fh:
        json.dump(pick, fh)
    done = set()
    if os.path.exists(OUT + '/results.jsonl'):
        done = {json.loads(l)['i'] for l in open(OUT + '/results.jsonl')}

    def stage1(im):
        i, m = im
        if i in done:
            return None
        d = build(i, m)
        if not py_ok(d, m):
            shutil.rmtree(d)
            return (i, m, d, 'syntax')
        r = tests(d) if m[0] != '__main__' else '493 passed'
        return (i, m, d, r)
    step = 16
    for b in range(0, len(pick), step):
        with ThreadPoolExecutor(8) as ex:
            res = [r for r in ex.map(stage1, list(enumerate(pick))[b:b + step]) if r]
        for i, m, d, r in res:
            rec = {'i': i, 'file': m[0], 'line': m[1], 'why': m[5], 'tests': r, 'src': open(SNAP + '/cmdis/%s.py' % m[0]).read().splitlines()[m[1] - 1].strip()[:110]}
            if 'passed' in r and 'failed' not in r and 'error' not in r:
                rec['caught'] = None
                rec['odd'] = []
                for c in REL[m[0]]:
                    env = dict(os.environ, VERIF_REPO=d)
                    try:
                        p = subprocess.run(['python3', 'run.py', c], cwd=VER, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=900)
                        rc, o = p.returncode, p.stdout
                    except subprocess.TimeoutExpired:
                        rc, o = 'timeout', ''
                    if rc == 1 and 'VIOLATION property=' + c in o:
                        rec['caught'] = c
                        break
                    if rc != 0:
                        rec['odd'].append((c, rc, o[-300:]))
                    elif ' 0 undecided' not in o:
                        rec['odd'].append((c, 'undecided', o[:160]))
            with open(OUT + '/results.jsonl', 'a') as fh:
                fh.write(json.dumps(rec) + '\n')
            shutil.rmtree(d, ignore_errors=True)


main()
