"""Concrete runs of obligations against the unmodified code (replay of counterexamples, random cross-check).

Run with /repo's own interpreter:  /opt/venv/bin/python -m pyvc.conc JOB.json   (JSON result on stdout)
"""
import sys, os, json, time, random, traceback, importlib, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))

from pyvc.api import Conc, Reject, Broken    # noqa


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def load_pkg():
    pkg = importlib.import_module('pygcode')
    for m in ('machine', 'words', 'gcodes', 'block', 'line', 'comment', 'transform', 'utils', 'exceptions', 'dialects', 'dialects.linuxcnc'):
        importlib.import_module('pygcode.' + m)
    src = os.path.realpath(pkg.__file__)
    assert src.startswith(os.path.realpath(REPO)), src
    return pkg


def run_one(pg, ob, rng=None, values=None, fixed=None, limit=10):
    """-> (status, label, detail, ctx)   status: ok | reject | broken | exception | timeout"""
    c = Conc(pg, rng, values, fixed)
    signal.signal(signal.SIGALRM, _alarm)
    # processor time; waiting, and time taken by others, is given more
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(limit * 6)
    try:
        ob.fn(c)
        return ('ok', None, None, c)
    except Reject:
        return ('reject', None, None, c)
    except Broken as e:
        return ('broken', e.label, str(e.detail), c)
    except Timeout:
        return ('timeout', 'terminates', 'no result within %d s' % limit, c)
    except Exception as e:
        return ('exception', 'no exception (%s)' % type(e).__name__, traceback.format_exc(limit=-4)[-1500:], c)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def main(job):
    pg = load_pkg()
    spec = importlib.import_module('specs.' + job['prop'].lower()).SPEC
    obs = {o.name: o for o in spec.obs}
    out = {'failures': [], 'evaluations': 0, 'rejected': 0, 'distinct': 0, 'checks': 0, 'samples': [], 'per_ob': {}, 'covers': []}
    seen = set()
    covers = set()

    def record(ob, st, label, detail, c, origin):
        out['failures'].append({'ob': ob.name, 'status': st, 'label': label, 'detail': detail, 'values': c.values, 'origin': origin})

    # replay of counterexamples, then a guided search around each (same case distinctions, other numbers)
    for f in job.get('replay', []):
        ob = obs.get(f['ob'])
        if ob is None or not ob.conc:
            continue
        vals = f['values'] or {}
        st, label, detail, c = run_one(pg, ob, random.Random(7), values=vals)
        out['evaluations'] += 1
        if st in ('broken', 'exception', 'timeout'):
            record(ob, st, label, detail, c, 'counterexample')
            continue
        if f.get('exact'):
            continue
        rng = random.Random(job.get('seed', 1))
        fixed = {k: v for k, v in vals.items() if k in (f.get('choices') or ())}
        t0 = time.time()
        n = 0
        while time.time() - t0 < job.get('guided_s', 4) and n < 3000:
            n += 1
            fx = dict(fixed)
            if n % 2:
                for k, v in vals.items():
                    if k not in fx and v is not None and rng.random() < 0.6:
                        fx[k] = v
            st, label, detail, c = run_one(pg, ob, rng, fixed=fx)
            out['evaluations'] += 1
            if st in ('broken', 'exception', 'timeout'):
                record(ob, st, label, detail, c, 'search around the counterexample')
                break
    # random cross-check
    todo = [o for o in spec.obs if o.conc and (not job.get('only') or o.name in job['only'])]
    if job.get('budget') and todo:
        rng = random.Random('%s/%s' % (job.get('seed', 1), job.get('proc', 0)))
        t_end = time.time() + job['budget']
        spent = {o.name: 0.0 for o in todo}
        count = {o.name: 0 for o in todo}
        dead = set()
        while time.time() < t_end:
            live = [o for o in todo if o.name not in dead and (o.trials is None or count[o.name] < o.trials)]
            if not live:
                break
            ob = min(live, key=lambda o: spent[o.name] / o.weight)
            t0 = time.time()
            for _ in range(20):
                st, label, detail, c = run_one(pg, ob, rng)
                count[ob.name] += 1
                if st == 'reject':
                    out['rejected'] += 1
                else:
                    out['evaluations'] += 1
                    out['checks'] += c.nchecks
                    h = hash(json.dumps(c.values, sort_keys=True, default=str))
                    if h not in seen:
                        seen.add(h)
                    covers |= set((ob.name, x) for x in c.covers)
                    if len(out['samples']) < 3 and rng.random() < 0.02:
                        out['samples'].append({'obligation': ob.name, 'input': c.values})
                if st in ('broken', 'exception', 'timeout'):
                    record(ob, st, label, detail, c, 'random')
                    dead.add(ob.name)
                    break
                if time.time() - t0 > 0.5 or time.time() > t_end:
                    break
            spent[ob.name] += time.time() - t0
            if len(out['failures']) >= 6:
                break
        out['per_ob'] = count
    out['distinct'] = len(seen)
    out['covers'] = sorted(covers)
    return out


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        job = json.load(f)
    real = os.dup(1)
    os.dup2(2, 1)       # whatever the code prints is not our result
    r = main(job)
    with os.fdopen(real, 'w') as f:
        json.dump(r, f, default=str)
