"""python3 tools/detect.py [bug ids] [-j N]: run each planted bug's property check on copies of /repo and /verif with the bug
applied (PYVC_REPO points the checks at the copy); results in tools/detection.json.  A development tool: vcheck does the
same against /repo itself."""
import sys, os, json, glob, subprocess, time, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = V + '/tools/detection.json'
T = '/tmp/detect'


def one(i):
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    t = time.time()
    w = '%s/%s' % (T, i)
    os.makedirs(w)
    try:
        subprocess.run('cp -a /repo %s/repo && mkdir %s/verif && cd %s && cp -a check.py pyvc specs MANIFEST.json properties.jsonl known* %s/verif/; git -C %s/repo checkout -q -- . && git -C %s/repo apply %s/patch.diff'
                       % (w, w, V, w, w, w, d), shell=True, check=True, stderr=subprocess.DEVNULL)
        r = subprocess.run('cd %s/verif && timeout 880 python3-vt check.py %s' % (w, prop), shell=True, capture_output=True, text=True,
                           env=dict(os.environ, PYVC_REPO=w + '/repo'))
        vs = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        conc = [l for l in vs if not l.endswith('found')]
        obs = set()
        for l in vs:
            p = os.path.join(w, 'verif', l.split('replay=')[1].split()[0])
            try:
                obs.add(json.load(open(p))['obligation'])
            except Exception:
                pass
        und = [l[:150] for l in r.stdout.splitlines() if l.startswith('undecided')]
        if r.returncode == 1 and vs:
            res = '%s: %s%s' % (prop, ', '.join(sorted(obs)[:3]), '' if conc else ' (no failing input found)')
        else:
            res = 'missed'
        print(i, prop, 'rc', r.returncode, res, '%.0fs' % (time.time() - t), und[:1], r.stderr[-200:] if r.returncode not in (0, 1) else '', flush=True)
        return i, res
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    args = sys.argv[1:]
    j = 2
    if '-j' in args:
        k = args.index('-j')
        j = int(args[k + 1])
        del args[k:k + 2]
    ids = args or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(V + '/seeded/*/meta.json'))
    if os.path.exists(T):
        shutil.rmtree(T)
    det = json.load(open(out)) if os.path.exists(out) else {}
    with ThreadPoolExecutor(j) as ex:
        for i, res in ex.map(one, ids):
            det[i] = res
            json.dump(det, open(out, 'w'), indent=1, sort_keys=True)
