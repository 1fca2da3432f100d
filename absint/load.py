"""Find and parse the current sources of the package under analysis."""
import ast
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'cmdis'
_cache = {}


def source_path(name, repo=None):
    repo = repo or REPO
    base = os.path.join(repo, *name.split('.'))
    if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py'), True
    if os.path.exists(base + '.py'):
        return base + '.py', False
    return None


def parse(path):
    with open(path, 'rb') as f:
        text = f.read().decode('utf-8')
    try:
        return ast.parse(text, path), text
    except SyntaxError:
        pass
    # Python 2 source: the package is converted when it is built for Python 3
    conv = to3(path, text)
    return ast.parse(conv, path), conv


def to3(path, text):
    code = ('import sys,warnings;warnings.simplefilter("ignore")\n'
            'from lib2to3.refactor import RefactoringTool,get_fixers_from_package as g\n'
            'import logging;logging.disable(logging.CRITICAL)\n'
            'r=RefactoringTool(g("lib2to3.fixes"))\n'
            's=sys.stdin.buffer.read().decode("utf-8")\n'
            'sys.stdout.buffer.write(str(r.refactor_string(s+"\\n","x")).encode("utf-8"))\n')
    for py in (sys.executable, '/opt/venv-pypy/bin/python', 'python3'):
        try:
            p = subprocess.run([py, '-c', code], input=text.encode('utf-8'), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
        except OSError:
            continue
        if p.returncode == 0:
            return p.stdout.decode('utf-8')
    raise SyntaxError('cannot parse or convert %s' % path)


class Loader(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.texts = {}
        self.extra = {}       # driver modules of the checks: name -> source

    def __call__(self, name):
        if name in self.extra:
            return name + '.py', ast.parse(self.extra[name]), False
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        key = (self.repo, name)
        if key not in _cache:
            sp = source_path(name, self.repo)
            if sp is None:
                if name == PKG + '._version':
                    # generated at build time, never committed
                    _cache[key] = ('_version.py', ast.parse('version = "0.0"\n'), False, '')
                else:
                    _cache[key] = None
            else:
                path, is_pkg = sp
                tree, text = parse(path)
                rel = os.path.relpath(path, self.repo)
                _cache[key] = (rel, tree, is_pkg, text)
        r = _cache[key]
        return r[:3] if r else None
