#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the per-property part from the check modules, and tools/design_tail.md."""
import ast, glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.dont_write_bytecode = True


def main():
    import gen_manifest
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    bounds = json.load(open(os.path.join(ROOT, 'tools', 'design_bounds.json')))
    out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip(), '', '## 4. Per property', '']
    na = []
    for p in props:
        pid = p['id']
        f = os.path.join(ROOT, 'sa', 'checks', pid.lower() + '.py')
        if not os.path.exists(f):
            na.append((pid, p['title'], gen_manifest.NA[pid]))
            continue
        m = importlib.import_module('sa.checks.' + pid.lower())
        doc = ' '.join((m.__doc__ or '').split())
        doc = doc.split(': ', 1)[-1]
        out += ['### %s %s' % (pid, p['title']), '', '*Method.* ' + m.TECHNIQUE[0].upper() + m.TECHNIQUE[1:] + '.']
        if doc:
            out += ['*How.* ' + doc[0].upper() + doc[1:]]
        b = bounds.get(pid)
        if b:
            out += ['*Bounds and oracle.* ' + b]
        out += ['']
    out += ['## 5. Properties this family cannot decide here', '']
    out += ['* **%s %s**: %s.' % x for x in na] + ['']
    out += ['## 6. Planted bugs and what catches them', '',
            'Each line: the change (`seeded/<id>`), what it needs to show, what it breaks. All are caught by the check of the property named.', '',
            '| change | caught by | needs | breaks |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
    out += ['', '## 7. Defects of pdfme found and repaired', '',
            'Each was shown on the real code before it was repaired; `known_findings.txt` lists them in the form the checks read.', '']
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith('fixed: '):
            pid, sha, text = l[len('fixed: property='):].strip().split(' ', 2)
            out.append('* %s, `%s`: %s' % (pid, sha, text))
    out += ['', open(os.path.join(ROOT, 'tools', 'design_tail.md')).read().rstrip(), '']
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
    print(len('\n'.join(out).split('\n')), 'lines')


main()
