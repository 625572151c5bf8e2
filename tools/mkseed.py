#!/opt/venv/bin/python
"""Make the planted bugs of tools/bugs_*.py: apply each to a scratch copy of /repo, run the tests and the
demonstration with and without it, and keep it under /verif/seeded if all is as it has to be.
mkseed.py [ID ...]"""
from multiprocessing.pool import ThreadPool
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8')
BUGS = []
for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs_*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    BUGS += ns['BUGS']
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def tests(d):
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', 'hgaa', 'hgpl'], cwd=d, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()[-600:]


def demo(folder, d):
    p = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode()[-800:]


def main():
    want = sys.argv[1:]
    todo = [b for b in BUGS if (b['id'] in want if want else not os.path.exists(os.path.join(V, 'seeded', b['id'], 'patch.diff')))]
    with ThreadPool(6) as pool:
        pool.map(one, todo)


def one(b):
    if True:
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            d = os.path.join(w, 'repo')
            shutil.copytree(REPO, d, symlinks=True)
            for f, old, new in b['edits']:
                p = os.path.join(d, f)
                s = open(p, newline='').read()
                if '\r\n' in s:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if s.count(old) != 1:
                    print(b['id'], 'EDIT: %d matches in %s of %r' % (s.count(old), f, old[:60])); return
                open(p, 'w', newline='').write(s.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=d, stdout=subprocess.PIPE).stdout.decode()
            out = os.path.join(w, b['id'])
            os.makedirs(out)
            open(os.path.join(out, 'patch.diff'), 'w', newline='').write(diff)
            open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: the repository\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            open(os.path.join(out, 'demo.py'), 'w').write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n' + b['demo'].lstrip('\n'))
            for n, t in b.get('files', {}).items():
                open(os.path.join(out, n), 'w').write(t)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            r0, o0 = demo(out, REPO)
            r1, o1 = demo(out, d)
            if r0 != 0 or r1 == 0:
                print(b['id'], 'DEMO: unchanged %d, changed %d\n%s\n--\n%s' % (r0, r1, o0, o1)); return
            rt, ot = tests(d)
            if rt != 0:
                print(b['id'], 'TESTS fail\n', ot); return
            dst = os.path.join(V, 'seeded', b['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            print(b['id'], 'kept:', o1.strip().splitlines()[-1:] )
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
