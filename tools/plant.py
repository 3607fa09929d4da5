"""python3 tools/plant.py FILE...: make seeded/<id>/ from bug descriptions, after confirming each in a scratch copy.
A FILE defines BUGS = [dict(id, property, file, edits=[(old, new)...], demo='python source', needs, what)]"""
import sys, os, json, subprocess, shutil, runpy, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant_tree'
BASE = set(x['id'] if isinstance(x, dict) else x for x in [])


def sh(cmd, cwd=None, t=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def original_lines(f):
    return sh('git -C /repo show 9901192:%s' % f).stdout


def main():
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for path in [a for a in sys.argv[1:] if a.endswith('.py')]:
        for b in runpy.run_path(path)['BUGS']:
            if only and b['id'] not in only:
                continue
            one(b)


def one(b):
    if os.path.exists(W):
        shutil.rmtree(W)
    sh('cp -a /repo %s && git -C %s checkout -q -- .' % (W, W))
    base = original_lines(b['file'])
    p = os.path.join(W, b['file'])
    s = open(p).read()
    for old, new in b['edits']:
        if s.count(old) != 1:
            print(b['id'], 'EDIT does not match once:', s.count(old), repr(old[:80]))
            return
        for l in old.splitlines():
            if l.strip() and l.strip() not in [x.strip() for x in base.splitlines()] and l.strip() not in new:
                print(b['id'], 'NOTE changed line is not original:', l)
        s = s.replace(old, new)
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    demo = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write('import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\n' + b['demo'].lstrip('\n'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, W)
    open(p, 'w').write(s)
    open(d + '/patch.diff', 'w').write(sh('git diff', W).stdout)
    r1 = sh('bash %s/demo.sh' % d, W)
    t = sh('cd %s && PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3' % (W, W), W)
    ok = r0.returncode == 0 and r1.returncode != 0 and 'failed' not in t.stdout and '60 passed' in t.stdout
    print(b['id'], b['property'], 'OK' if ok else 'REJECTED base %d bug %d tests %s\n%s%s' % (r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1:], r0.stderr[-800:], r1.stderr[-300:]))
    if not ok:
        shutil.rmtree(d)
    shutil.rmtree(W)


main()
