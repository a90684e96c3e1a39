#!/usr/bin/env python3
"""development helper: plant(id, property, file, [(old, new)...], demo python source, needs, what)
confirms that the tests pass and the demonstration fails only with the change, then writes seeded/<id>"""
import json, os, shutil, subprocess, sys, tempfile
REPO = '/repo'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, shell=isinstance(cmd, str), **kw)


def plant(pid, prop, edits, demo, needs, what, tests=True):
    """edits: {file: [(old, new), ...]}"""
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    r = d + '/repo'
    try:
        shutil.copytree(REPO, r, symlinks=True)
        base = sh('git rev-list --max-parents=0 HEAD', r).stdout.strip()
        for f, pairs in edits.items():
            p = os.path.join(r, 'pdfme', f)
            s = open(p).read()
            for o, n in pairs:
                if s.count(o) != 1:
                    print(pid, '!!', s.count(o), repr(o)); return False
                s = s.replace(o, n)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        diff = sh('git diff', r).stdout
        # removed/neighbouring lines must be original
        orig = 0
        for f in edits:
            bl = sh('git blame -l -s HEAD -- pdfme/' + f, r).stdout.split('\n')
            dl = sh('git diff -U0 -- pdfme/' + f, r).stdout
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+', dl, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + max(c, 1)):
                    if bl[i - 1].lstrip('^').startswith(base[:30]):
                        orig += 1
        if not orig:
            print(pid, '!! changes no original line'); return False
        out = os.path.join('/verif/seeded', pid)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write('#!/bin/sh\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(out + '/meta.json', 'w'), indent=1)
        a = sh('sh %s/demo.sh' % out, REPO)
        b = sh('sh %s/demo.sh' % out, r)
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            print(pid, 'DEMO', a.returncode, a.stdout[-300:], a.stderr[-500:], '|', b.returncode, b.stdout[-300:], b.stderr[-300:])
        c = sh([sys.executable, '/verif/check.py', prop], '/verif', env=dict(os.environ, VERIF_REPO=r, VERIF_NOEV='1'))
        t = None
        if tests:
            t = run_tests(r)
        print(pid, 'demo', 'ok' if ok else 'BAD', 'tests', t, 'check exit', c.returncode, (c.stdout.strip().split('\n') or [''])[0][:200])
        if b.returncode and ok:
            print('     ', (b.stderr.strip().split('\n') or [''])[-1][:200])
        if not ok or t is False:
            shutil.rmtree(out)
            return False
        return True
    finally:
        shutil.rmtree(d)


def run_tests(r):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=r)
    where = sh(['/opt/venv/bin/python', '-c', 'import pdfme; print(pdfme.__file__)'], r, env=env).stdout.strip()
    assert where.startswith(r), where
    q = sh("timeout -k 10 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=180 --randomly-seed=20 "
           "--randomly-dont-reorganize -o python_files='test_*.py running_section_per_page.py group_element.py' "
           "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=j.xml tests", r, env=env)
    import xml.etree.ElementTree as ET
    good = set()
    for tc in ET.parse(r + '/j.xml').getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            good.add(tc.get('classname') + '::' + tc.get('name'))
    miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - good
    if miss:
        print('   tests failing:', sorted(miss))
    return not miss
