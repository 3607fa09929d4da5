"""Mutation campaign (development aid, no check uses it):  python3 tools/mutate.py gen DIR | test DIR | conc DIR [FILTER]

gen: single-site mutants of /repo's sources; test: keep those that pass the existing tests;
conc: run every property's contracts on them concretely, list those nothing notices."""
import sys, os, ast, json, subprocess, shutil, random
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
FILES = ['src/pygcode/%s.py' % x for x in 'block comment line words machine transform utils gcodes'.split()] + ['src/pygcode/dialects/%s' % x for x in os.listdir(REPO + '/src/pygcode/dialects') if x.endswith('.py')] if os.path.isdir(REPO + '/src/pygcode/dialects') else []
FILES += ['scripts/pygcode-norm', 'scripts/pygcode-crop']
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '+', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}


def sites(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in src.encode().split(b'\n'):
        offs.append(offs[-1] + len(l) + 1)
    B = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def text(n):
        a, b = pos(n)
        return B[a:b].decode()

    def rep(n, t, why):
        a, b = pos(n)
        out.append((a, b, t, why, n.lineno))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assert, ast.Raise)):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, '(%s %s %s)' % (text(n.left), OPS[type(n.op)], text(n.right)), 'op')
        elif isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                rest = [text(v) for i, v in enumerate(n.values) if i != k]
                w = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(%s)' % w.join('(%s)' % r for r in rest), 'drop operand')
        elif isinstance(n, ast.UnaryOp):
            rep(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), 'const')
            elif isinstance(v, (int, float)):
                rep(n, repr(v + 1), 'const')
            elif v is None:
                pass
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, '(not (%s))' % text(n.test), 'if')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                rep(t, '(True)', 'filter')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and (id(n.value) in docs or isinstance(n.value, (ast.Yield, ast.Constant)))):
            inside = n.col_offset > 0
            if inside:
                rep(n, 'pass', 'drop')
            if isinstance(n, ast.AugAssign) and type(n.op) in OPS:
                rep(n, '%s %s= %s' % (text(n.target), OPS[type(n.op)], text(n.value)), 'aug')
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, 'pass', 'jump')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('abs', 'copy', 'deepcopy', 'list', 'sorted', 'set', 'dict', 'float', 'int', 'max', 'min'):
            if n.args and n.func.id not in ('max', 'min'):
                rep(n, '(%s)' % text(n.args[0]), 'call')
            elif n.func.id in ('max', 'min'):
                rep(n.func, {'max': 'min', 'min': 'max'}[n.func.id], 'call')
    return B, out


def gen(d):
    os.makedirs(d, exist_ok=True)
    all_ = []
    for f in FILES:
        B, ss = sites(open(os.path.join(REPO, f)).read())
        for (a, b, t, why, line) in ss:
            new = B[:a] + t.encode() + B[b:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            all_.append({'file': f, 'a': a, 'b': b, 't': t, 'why': why, 'line': line, 'old': B[a:b].decode()[:100]})
    for i, m in enumerate(all_):
        m['id'] = i
    json.dump(all_, open(d + '/mutants.json', 'w'))
    by = {}
    for m in all_:
        by[m['file']] = by.get(m['file'], 0) + 1
    print(len(all_), by)


class Copies(object):
    def __init__(self, d, n):
        import queue
        self.q = queue.Queue()
        for i in range(n):
            p = '%s/copy%d' % (d, i)
            if not os.path.isdir(p):
                shutil.copytree(REPO, p, ignore=shutil.ignore_patterns('.git'), symlinks=True)
            self.q.put(p)

    def with_(self, m, fn):
        p = self.q.get()
        try:
            f = os.path.join(p, m['file'])
            B = open(os.path.join(REPO, m['file']), 'rb').read()
            with open(f, 'wb') as o:
                o.write(B[:m['a']] + m['t'].encode() + B[m['b']:])
            try:
                return fn(p, m)
            finally:
                with open(f, 'wb') as o:
                    o.write(B)
        finally:
            self.q.put(p)


def tests(p, m):
    env = dict(os.environ, PYTHONPATH=p + '/src', PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=20', 'tests'], cwd=p, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def test(d):
    ms = json.load(open(d + '/mutants.json'))
    c = Copies(d, 8)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda m: c.with_(m, tests), ms))
    live = [m for m, r in zip(ms, res) if r]
    json.dump(live, open(d + '/live.json', 'w'))
    print(len(live), 'of', len(ms), 'pass the tests')


ORDER = {
    'block': 'C04 C07 C08 C10 C09', 'comment': 'C03 C08', 'line': 'C03 C08', 'words': 'C01 C02 C26 C08', 'machine': 'C10 C11 C12 C13 C14 C15 C16 C09 C21',
    'transform': 'C17 C18 C19 C20', 'utils': 'C25 C21 C18', 'gcodes': 'C06 C04 C05 C09 C22 C19 C12 C10 C25', 'linuxcnc': 'C02 C01 C05', 'pygcode-norm': 'C23', 'pygcode-crop': 'C24'}


def conc(p, m):
    name = os.path.basename(m['file']).replace('.py', '')
    first = ORDER.get(name, '').split()
    rest = ['C%02d' % i for i in range(1, 27) if 'C%02d' % i not in first]
    if name.startswith('pygcode-'):
        rest = []
    for prop in first + rest:
        jf = p + '/job.json'
        json.dump({'prop': prop, 'seed': 5, 'proc': 0, 'budget': 6 if prop in first else 2, 'only': None}, open(jf, 'w'))
        env = dict(os.environ, PYVC_REPO=p, PYTHONPATH='', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pyvc.conc', jf], cwd=os.environ.get('VERIF_COPY', '/verif'), env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
            out = json.loads(r.stdout)
            if out['failures']:
                return prop + ' ' + out['failures'][0]['label']
        except subprocess.TimeoutExpired:
            return prop + ' timeout'
        except ValueError:
            return prop + ' crash'
    return None


def run_conc(d, flt=''):
    ms = [m for m in json.load(open(d + '/live.json')) if flt in m['file']]
    c = Copies(d, 8)
    done = {}
    fn = d + '/conc.json'
    if os.path.exists(fn):
        done = json.load(open(fn))
    todo = [m for m in ms if str(m['id']) not in done]
    random.Random(1).shuffle(todo)

    def one(m):
        r = c.with_(m, conc)
        done[str(m['id'])] = r
        json.dump(dict(done), open(fn + '.tmp', 'w'))
        os.replace(fn + '.tmp', fn)
        print(m['id'], m['file'], m['line'], m['why'], repr(m['old'][:50]), '->', repr(m['t'][:50]), ':', r, flush=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    {'gen': gen, 'test': test, 'conc': run_conc}[sys.argv[1]](*sys.argv[2:])
