#!/usr/bin/env python3
"""Contract verification of one property:  python3-vt /verif/check.py C15 [--tier quick|thorough] [--seed N]

exit 0: every obligation generated from /repo's current source was discharged and no concrete run failed
exit 1: VIOLATION property=.. replay=..   (suffix no-failing-input-found when only an obligation failed)
"""
import sys, os, re, json, time, argparse, importlib, subprocess, multiprocessing, tempfile, shutil, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO_PY = '/opt/venv/bin/python'
sys.setrecursionlimit(3000)


def worker(prop, tasks, results, pg, snap):
    from pyvc import engine
    spec = importlib.import_module('specs.' + prop.lower()).SPEC
    obs = {o.name: o for o in spec.obs}
    while True:
        t = tasks.get()
        if t is None:
            return
        (name, prefixes, budget, deadline) = t
        try:
            r = engine.run_paths(pg, obs[name], prefixes, snap.restore, budget, 10 ** 9, deadline, obs[name].opts)
        except BaseException as e:
            r = engine.ObResult(name)
            r.undecided.append('checker error: %s' % traceback.format_exc(limit=-4))
        results.put(r)


def symbolic(prop, spec, deadline, jobs, slice_s):
    """Explore every obligation on `jobs` processes; returns name -> ObResult"""
    from pyvc import engine
    from pyvc import load
    pg = load.load()
    if not getattr(spec, 'cold', False):
        # lookup caches filled by a first use (that lookups do not depend on earlier ones is proved in C05, which starts cold)
        try:
            pg.machine.Machine()
        except Exception:
            pass
    snap = load.Snapshot()
    ctx = multiprocessing.get_context('fork')
    tasks, results = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(prop, tasks, results, pg, snap), daemon=True) for _ in range(jobs)]
    for p in procs:
        p.start()
    total = {}
    queue = []
    for o in spec.obs:
        if o.sym:
            total[o.name] = engine.ObResult(o.name)
            queue.append((o.name, [[]]))
    obs = {o.name: o for o in spec.obs}
    inflight = 0
    flying = {}
    stopped = set()
    over = set()
    limit = {o.name: o.opts.get('limit_s') for o in spec.obs}
    while queue or inflight:
        while queue and inflight < jobs * 2:
            name, prefixes = queue.pop(0)
            if name in stopped:
                continue
            if time.time() > deadline:
                over.add(name)
                continue
            tasks.put((name, prefixes, slice_s, deadline))
            flying[name] = flying.get(name, 0) + 1
            inflight += 1
        if not inflight:
            continue
        try:
            r = results.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs):
                break
            if time.time() > deadline + 45:
                over |= set(n for n, k in flying.items() if k)
                break
            continue
        inflight -= 1
        flying[r.name] -= 1
        t = total[r.name]
        t.stats.merge(r.stats)
        t.failures += r.failures
        t.undecided += r.undecided
        if len(t.failures) >= 4 or len(t.undecided) > 6:
            stopped.add(r.name)
            t.stopped = True
            continue
        left = r.leftover
        # spread over the processes
        n = max(1, min(len(left), jobs * 2))
        for i in range(n):
            ch = left[i::n]
            if ch:
                queue.append((r.name, ch))
        if not left:
            continue
    for name in over:
        total[name].undecided.append('exploration not finished within the time budget')
    for _ in procs:
        tasks.put(None)
    for p in procs:
        p.join(3)
        if p.is_alive():
            p.terminate()
    return total


def concrete(job_list, tmp, timeout):
    ps = []
    for i, job in enumerate(job_list):
        jf, of = os.path.join(tmp, 'job%d.json' % i), os.path.join(tmp, 'out%d.json' % i)
        with open(jf, 'w') as f:
            json.dump(job, f)
        o = open(of, 'w')
        e = open(os.path.join(tmp, 'err%d' % i), 'w')
        env = dict(os.environ, PYTHONPATH='', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        ps.append((subprocess.Popen([REPO_PY, '-m', 'pyvc.conc', jf], cwd=HERE, stdout=o, stderr=e, env=env, start_new_session=True), o, of, e))
    out = []
    end = time.time() + timeout
    for p, o, of, e in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        o.close()
        e.close()
        try:
            with open(of) as f:
                out.append(json.load(f))
        except Exception:
            with open(e.name) as f:
                out.append({'crash': f.read()[-2000:], 'failures': [], 'evaluations': 0, 'rejected': 0, 'distinct': 0, 'checks': 0, 'samples': [], 'per_ob': {}, 'covers': []})
    return out


def load_known():
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {'open': [], 'fixed': []}


MISFIT = re.compile(r'misfit:|loop contract does not describe|loops\.py", line')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop.upper()
    t0 = time.time()
    mod = importlib.import_module('specs.' + prop.lower())
    spec = mod.SPEC
    tmp = tempfile.mkdtemp(prefix='pyvc_')
    try:
        rc = run(a, prop, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, spec, tmp, t0):
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        job = {'prop': prop, 'seed': a.seed, 'replay': [{'ob': rep['obligation'], 'values': rep.get('values'), 'exact': True}]}
        r = concrete([job], tmp, 120)[0]
        print(json.dumps(r, indent=1)[:4000])
        return 1 if r['failures'] else 0
    thorough = a.tier == 'thorough'
    if a.only:
        spec.obs = [o for o in spec.obs if o.name in a.only.split(',')]
    sym_s = getattr(spec, 'thorough_s', 600) if thorough else getattr(spec, 'quick_s', 420)
    conc_s = getattr(spec, 'conc_s', 8)
    if thorough:
        conc_s = max(60, 3 * conc_s)
    jobs = a.jobs
    # 1. obligations
    total = {}
    load_error = None
    if any(o.sym for o in spec.obs):
        try:
            total = symbolic(prop, spec, t0 + sym_s, jobs, 2.0)
        except BaseException as e:
            load_error = traceback.format_exc(limit=-6)
            print('undecided: the instrumented code does not load: %s' % load_error[-1500:])
    # 2. replay of counterexamples
    fails = []
    for name, r in sorted(total.items()):
        for f in r.failures:
            fails.append((name, f))
    replays = [{'ob': n, 'values': f.values, 'choices': [k for k in (f.values or {}) if f.choice_names and k in f.choice_names]} for n, f in fails[:16]]
    cres = []
    if replays:
        js = [{'prop': prop, 'seed': a.seed, 'replay': [r]} for r in replays]
        cres += concrete(js, tmp, 60)
    # 3. random cross-check on the unmodified code
    only = [o.name for o in spec.obs]
    rnd = concrete([{'prop': prop, 'seed': a.seed, 'proc': i, 'budget': conc_s, 'only': only} for i in range(jobs)], tmp, conc_s + 60)
    crashes = [r['crash'] for r in rnd if 'crash' in r]
    cres_all = cres + rnd
    # 4. verdict
    known = load_known()
    violations, findings = [], []
    seen = set()
    for r in cres_all:
        for f in r['failures']:
            k = (f['ob'], f['label'])
            if k in seen:
                continue
            seen.add(k)
            kf = match_known(known, prop, f)
            (findings if kf else violations).append((f, kf))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    lines = []
    for f, _ in violations:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(repr((f['ob'], f['label'])).encode()).hexdigest()[:8]))
        with open(p, 'w') as g:
            json.dump({'property': prop, 'obligation': f['ob'], 'clause': f['label'], 'how': f['status'], 'detail': f['detail'],
                       'values': f['values'], 'found_by': f['origin'],
                       'rerun': 'python3-vt /verif/check.py %s --replay %s' % (prop, p)}, g, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    undecided = {'*': [load_error[-400:]]} if load_error else {}
    for name, r in total.items():
        if r.undecided:
            undecided[name] = sorted(set(r.undecided))[:5]
    reproduced = set(f['ob'] for f, _ in violations) | set(f['ob'] for f, _ in findings)
    unrepro = []
    for name, f in fails:
        if name in reproduced:
            continue
        if f.kind == 'exception':
            # an exception seen only by the verifier: no obligation about the code failed
            undecided.setdefault(name, []).append('exception in the verifier only: ' + f.detail[-600:])
            continue
        unrepro.append((name, f))
    # where a loop is not of the form its contract describes, what fails elsewhere in that obligation may be the contract's fault
    misfits = set(n for n, rs in list(undecided.items()) + [(n, r.undecided) for n, r in total.items()] if any(MISFIT.search(r) for r in rs))
    for name, f in unrepro:
        if name in misfits:
            undecided.setdefault(name, []).append('not reproduced, and the loop contract does not fit the loop: ' + f.label)
    unrepro = [(name, f) for name, f in unrepro if name not in misfits]
    done = set()
    for name, f in unrepro:
        if (name, f.label) in done:
            continue
        done.add((name, f.label))
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-vc-%s.json' % (prop, hashlib.sha1(repr((name, f.label)).encode()).hexdigest()[:8]))
        with open(p, 'w') as g:
            json.dump({'property': prop, 'obligation': name, 'clause': f.label, 'how': 'verification condition %s' % f.kind, 'detail': f.detail,
                       'values': f.values, 'smt': f.smt, 'note': 'no failing input found on the real code'}, g, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    wall = time.time() - t0
    evidence(a, prop, spec, total, rnd, cres, undecided, lines, findings, wall, crashes)
    for f, kf in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf.get('what', '')))
    nv = sum(r.stats.vcs for r in total.values())
    nd = sum(r.stats.discharged for r in total.values())
    print('%s: %d functions under contract; %d/%d verification conditions discharged on %d paths; %d concrete runs; %.1f s' % (
        prop, len(set(x for o in spec.obs for x in o.functions)), nd, nv, sum(r.stats.paths + r.stats.ended for r in total.values()),
        sum(r['evaluations'] for r in rnd), wall))
    if a.v:
        for name, r in total.items():
            print('  %-40s paths %d ended %d vcs %d/%d trivial %d solver %.1fs cuts %s bounds %s' % (
                name, r.stats.paths, r.stats.ended, r.stats.discharged, r.stats.vcs, r.stats.trivial, r.stats.solver_s, sorted(r.stats.cuts), sorted(r.stats.bounds)))
            for f in r.failures[:1]:
                print('     FAIL', f.kind, f.label, f.detail[-700:], str(f.values)[:500])
        for r in rnd[:1]:
            print('  concrete', r['per_ob'], 'rejected', r['rejected'])
        shown = {}
        for r in cres_all:
            for f in r['failures'][:3]:
                shown[f['ob']] = shown.get(f['ob'], 0) + 1
                if shown[f['ob']] < 3:
                    print('   CONC', f['ob'], f['status'], f['label'], (f['detail'] or '')[-700:], str(f['values'])[:500], f['origin'])
    for n, u in undecided.items():
        print('undecided: %s/%s: %s' % (prop, n, '; '.join(u)[:600]))
    for cr in crashes[:1]:
        print('concrete runner crashed: %s' % cr[-600:])
    for l in lines:
        print(l)
    if lines:
        return 1
    if not undecided and not load_error:
        # vacuity guards
        for o in spec.obs:
            if o.sym and total[o.name].stats.vcs == 0:
                print('no obligation generated for %s' % o.name)
                return 3
            miss = [x for x in o.covers if o.sym and x not in total[o.name].stats.covers]
            if miss:
                print('cover points not reached in %s: %s' % (o.name, miss))
                if a.v:
                    return 3
    if crashes and len(crashes) == len(rnd):
        # the package cannot even be imported by its own interpreter
        print('code under verification does not load: %s' % crashes[0][-500:])
        return 3
    return 0


def match_known(known, prop, f):
    for k in known.get('open', []):
        if k['property'] == prop and k['obligation'] == f['ob'] and k['clause'] == f['label'] and \
                all(f['values'].get(n) == v for n, v in k.get('values', {}).items()):
            return k
    return None


def evidence(a, prop, spec, total, rnd, cres, undecided, lines, findings, wall, crashes):
    from pyvc import engine
    st = engine.Stats()
    proof_v = proof_d = bound_v = bound_d = 0
    obs = []
    for o in spec.obs:
        r = total.get(o.name)
        d = {'name': o.name, 'kind': o.kind, 'functions': o.functions}
        if o.bound:
            d['bound'] = o.bound
        if r is not None:
            st.merge(r.stats)
            unrolled = bool(r.stats.bounds)
            isproof = o.kind == 'proof' and not unrolled and o.name not in undecided
            d.update({'paths': r.stats.paths + r.stats.ended, 'vcs': r.stats.vcs, 'discharged': r.stats.discharged,
                      'clauses': {k: v[0] for k, v in sorted(r.stats.labels.items())[:40]},
                      'loops_cut_by_invariant': sorted(r.stats.cuts)})
            if unrolled:
                d['bound'] = '; '.join(sorted(r.stats.bounds))
                d['kind'] = 'bounded'
            if isproof:
                proof_v += r.stats.vcs
                proof_d += r.stats.discharged
            else:
                bound_v += r.stats.vcs
                bound_d += r.stats.discharged
        obs.append(d)
    ev = sum(r['evaluations'] for r in rnd)
    dist = sum(r['distinct'] for r in rnd)
    samples = [s for r in rnd for s in r['samples']][:4]
    level = getattr(spec, 'level', 'proof')
    trusted = [
        'pyvc (/verif/pyvc): path-by-path verification condition generator over the mechanically instrumented source of /repo',
        'SMT solvers z3 and cvc5',
        'CPython semantics of the constructs the instrumentation leaves unchanged',
    ] + spec.trusted
    cov = {}
    if level == 'proof':
        cov.update({'obligations': proof_v, 'discharged': proof_d, 'checker_cmd': 'python3-vt /verif/check.py %s' % prop, 'trusted_base': trusted})
    cov.update({'evaluations': ev, 'distinct_nontrivial': dist,
                'rule': 'concrete cross-check: seeded random inputs for every obligation (same contracts) on the unmodified code under /opt/venv/bin/python; counted distinct by input values; inputs outside a precondition are not counted',
                'samples': samples or [{'note': 'none drawn'}]})
    cov['explanation'] = ('Every obligation runs the real functions of /repo (source re-read and instrumented on this run) on symbolic inputs; '
                          'each contract clause on each path is a verification condition handed to the solver. '
                          'obligations/discharged count only unbounded conditions; bounded stand-ins are listed apart.')
    cov['functions_under_contract'] = sorted(set(x for o in spec.obs for x in o.functions))
    cov['obligation_groups'] = obs
    cov['bounded_conditions'] = bound_v
    cov['bounded_conditions_discharged'] = bound_d
    cov['paths'] = st.paths + st.ended
    cov['solver_calls'] = st.solver_calls
    cov['solver_seconds'] = round(st.solver_s, 1)
    cov['back_ends'] = st.backends
    cov['conditions_true_by_evaluation'] = st.trivial
    cov['sample_conditions'] = st.samples[:3]
    cov['counterexamples_replayed'] = len(cres)
    cov['undecided'] = undecided
    cov['known_findings'] = [k.get('what') for _, k in findings]
    ass = list(spec.assumptions) + sorted(st.assumed)
    e = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': level, 'coverage': cov, 'assumptions': ass,
         'wall_s': round(wall, 2), 'violations': len(lines)}
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(e, f, indent=1, default=str)


if __name__ == '__main__':
    main()
