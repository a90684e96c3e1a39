#!/usr/bin/env python3
"""development helper: run checks against an edited copy of the package.
usage: mut.py CHECK[,CHECK] FILE OLD NEW [FILE OLD NEW ...]   (OLD/NEW: python source text, \\n allowed)
"""
import os, shutil, subprocess, sys, tempfile, ast as _ast
def main():
    ids = sys.argv[1].split(',')
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree('/repo/pdfme', d + '/pdfme')
        a = sys.argv[2:]
        while a:
            f, old, new = a[:3]; a = a[3:]
            old = old.replace('\\n', '\n'); new = new.replace('\\n', '\n')
            p = d + '/pdfme/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print('!! %d occurrences of %r in %s' % (s.count(old), old, f)); return 3
            s = s.replace(old, new); _ast.parse(s)
            open(p, 'w').write(s)
        for i in ids:
            r = subprocess.run([sys.executable, '/verif/check.py', i], env=dict(os.environ, VERIF_REPO=d, VERIF_NOEV='1'), capture_output=True, text=True)
            print(i, 'exit', r.returncode); print(r.stdout[-2500:] + r.stderr[-1500:])
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    sys.exit(main())
