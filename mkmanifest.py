"""Regenerate MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import registry

NA = {
 'C41': 'needs an assembler of the printed text as oracle: no assembler is part of the repository or described by it, and the '
        'text deliberately omits information (instruction width choices); the operand text itself is decided as C02',
 'C42': 'quantifies over whole program histories including exceptions, IT blocks and mode changes that this package does not '
        'implement; the per-instruction transition is decided by C07-C16',
 'C43': "'$' expressions evaluate arbitrary Python, so no static argument bounds what a session can do; the dispatch and "
        'error handling of the listed commands is decided as C36',
}
TECH = 'abstract interpretation over the AST with exact bit-level normal forms (decision diagrams), compared with reference tables'


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in registry.PROPS:
            s = registry.PROPS[i]
            checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                           'technique': s.technique or TECH, 'level': 'other',
                           'level_note': s.note or NOTE})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q absint spec checks run.py', 'checks': checks,
         'not_applicable': na, 'notes': 'No hooks: nothing in /repo is instrumented; every check parses /repo on each run.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NOTE = ('Static: every obligation is settled for all inputs of its unit by equality of normal forms computed from the current '
        'source. Trusts the abstract semantics in absint/ and the reference tables in spec/. Obligations the analysis cannot '
        'represent are listed as undecided in the evidence and are not reported as violations.')
main()
