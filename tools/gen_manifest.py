#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist and the declined properties."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
NA = {
    'N03': 'the outcome of a numeric search (bisection on heights) whose convergence depends on runtime heights',
    'N04': 'termination for every input depends on runtime sizes (an element taller than every page loops for ever on the current tree, by documented design of the continuation loops); no static bound exists',
    'N07': 'time and space consumed while parsing arbitrary bytes; not a property of the shape of the code that this family bounds soundly',
}
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if os.path.exists(os.path.join(ROOT, 'sa', 'checks', pid.lower() + '.py')):
            m = importlib.import_module('sa.checks.' + pid.lower())
            checks.append({
                'property': pid,
                'quick_cmd': 'python3 check.py %s --tier quick' % pid,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                'technique': m.TECHNIQUE,
                'level': 'other',
                'level_note': getattr(m, 'NOTE', 'Static analysis of the current source; every obligation is discharged or '
                                      'refuted on all abstract paths, undecided ones are listed in the evidence.'),
            })
        else:
            na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast"', 'checks': checks, 'not_applicable': na},
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not claimed')
main()
