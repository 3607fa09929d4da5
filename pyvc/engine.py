"""Path exploration and obligations.

An obligation is a Python function ob(c).  It builds inputs with c.real/c.int/c.choice...,
calls the real code of /repo (loaded instrumented, see load.py), and states contract clauses
with c.check.  Every execution follows one path; all feasible paths are explored by
re-execution with decision prefixes.  Each c.check on each path generates a verification
condition  path-condition => clause  that is handed to the solver.
"""
import time, traceback, os, sys
from fractions import Fraction
import z3
from . import sym
from .sym import Num, SymBool, PathEnd, Unsupported, CheckFailed, term, mkbool, boolterm, frac, zreal

TIMEOUT_FEAS = 3000
_slack = [0, 1.0]


def slack(ms):
    """time limits grow where the processors are shared with other work"""
    now = time.time()
    if now - _slack[0] > 2:
        _slack[0] = now
        try:
            _slack[1] = min(4.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 1)))
        except OSError:
            pass
    return int(ms * _slack[1])


TIMEOUT_OB = int(os.environ.get('PYVC_TIMEOUT_MS', '25000'))


class Stats(object):
    FIELDS = ('paths', 'vcs', 'discharged', 'trivial', 'solver_calls', 'infeasible', 'ended')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}        # label -> [generated, discharged]
        self.covers = set()
        self.backends = {}
        self.samples = []
        self.assumed = set()
        self.cuts = set()
        self.bounds = set()

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, (a, b) in o.labels.items():
            x = self.labels.setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
        self.covers |= o.covers
        self.assumed |= o.assumed
        self.cuts |= o.cuts
        self.bounds |= o.bounds
        for k, v in o.backends.items():
            self.backends[k] = self.backends.get(k, 0) + v
        if len(self.samples) < 3:
            self.samples += o.samples[:3 - len(self.samples)]


class Failure(object):
    """One failed obligation"""
    def __init__(self, kind, label, detail, values, decisions, smt=None, choice_names=()):
        self.choice_names = list(choice_names)
        self.kind = kind        # 'refuted' | 'unknown' | 'exception'
        self.label = label
        self.detail = detail
        self.values = values    # input name -> concrete value (or None)
        self.decisions = decisions
        self.smt = smt


class PathCtx(object):
    symbolic = True

    def __init__(self, pg, prefix, stats, deadline=None, opts=None):
        self.pg = pg
        self.prefix = list(prefix)
        self.trace = []             # decisions taken: (index, n_options, forced)
        self.stats = stats
        self.opts = opts or {}
        self.solver = z3.Solver()
        self.solver.set('timeout', slack(TIMEOUT_FEAS))
        self.path = []
        self.inputs = {}
        self.lengths = []       # (length variable, its value) of decided text
        self.input_order = []
        self.choices = {}
        self.failures = []
        self.counter = 0
        self.cache = {}
        self.deadline = deadline
        self.pending = []           # prefixes of alternatives discovered on this path
        self.trig = None
        self.loops = {}
        self.loops_used = set()
        self.keep = []
        self.nglobals = 0
        self.notes = []
        self.ring = None
        if self.opts.get('ring'):
            from . import ring
            self.ring = ring.Ring()
        self.nsqrt = -1
        self.sync_globals()

    # ------------------------------------------------------------ basics
    def sync_globals(self):
        from . import trig
        for f in trig.GLOBAL_FACTS[self.nglobals:]:
            self.path.append(f)
            self.solver.add(f)
        if self.ring is not None and len(trig._gsqrt) != self.nsqrt:
            self.nsqrt = len(trig._gsqrt)
            for n, c in trig.SQRTS:
                self.ring.square(c, z3.RealVal(n))
        self.nglobals = len(trig.GLOBAL_FACTS)

    def loop(self, lid, spec):
        self.loops[lid] = spec

    def fresh(self, base, isint=False):
        self.counter += 1
        n = "%s!%d" % (base, self.counter)
        return Num(t=z3.Int(n) if isint else z3.Real(n), isint=isint)

    def freshbool(self, base):
        self.counter += 1
        return SymBool(z3.Bool("%s!%d" % (base, self.counter)))

    def add(self, t):
        """assert a fact (definition of a fresh term)"""
        t = boolterm(t) if not isinstance(t, z3.BoolRef) else t
        self.path.append(t)
        self.solver.add(t)

    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_calls += 1
        self.stats.solver_s += time.time() - t0
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this obligation used up")
        return r

    imprecise = False       # some outcome was picked without tying it to its input

    def decide(self, n, label, feas):
        """n-ary decision; feas(i) -> bool says whether option i is feasible"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            i = self.prefix[pos]
            self.trace.append(i)
            return i
        opts = [i for i in range(n) if feas(i)]
        if not opts:
            raise PathEnd()
        for j in opts[1:]:
            self.pending.append(list(self.trace) + [j])
        self.trace.append(opts[0])
        return opts[0]

    def fork(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = ('fork', t.get_id())
        if key in self.cache:
            return self.cache[key]
        self.keep.append(t)
        t0 = t
        if self.ring is not None:
            t = self.ring.rel(t)
            if isinstance(t, bool):
                self.cache[key] = t
                return t
            self.keep.append(t)
            k1 = ('fork', z3.simplify(t).get_id())
            if k1 in self.cache:
                return self.cache[k1]
        nt = z3.Not(t)

        def feas(i):
            if self.ring is not None and self._linear(t if i == 0 else nt) == z3.unsat:
                return False
            if self.opts.get('feas') == 'lin':
                return True
            r = self._check(t if i == 0 else nt)
            if r == z3.unknown and self.ring is not None:
                r = self._nlsat(t if i == 0 else nt)
            return r != z3.unsat
        r = self.decide(2, 'fork', feas) == 0
        self.add(t if r else nt)
        self.cache[key] = r
        if self.ring is not None:
            k1 = z3.simplify(t)
            self.keep.append(k1)
            self.cache[('fork', k1.get_id())] = r
        k2 = z3.simplify(nt)
        self.keep.append(k2)
        self.cache[('fork', k2.get_id())] = not r
        return r

    def _linear(self, *extra):
        """products are opaque: a quick sound pre-check"""
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', slack(2000))
        s.set('arith.nl', False)
        s.add(*self.path)
        s.add(*extra)
        self.stats.solver_calls += 1
        r = s.check()
        self.stats.solver_s += time.time() - t0
        return r

    def _nlsat(self, *extra):
        t0 = time.time()
        try:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', slack(3000))
            s.add(*self.path)
            s.add(*extra)
            self.stats.solver_calls += 1
            return s.check()
        except z3.Z3Exception:
            return z3.unknown
        finally:
            self.stats.solver_s += time.time() - t0

    def pick(self, options):
        """Unconditional case split over the given options (finite, complete)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.decide(len(options), 'pick', lambda i: True)
        return options[i]

    def concretise(self, n):
        """case split an integer term over its (few) feasible values"""
        if isinstance(n, int):
            return n
        if n.q is not None:
            return int(n.q)
        lim = 40
        for _ in range(lim):
            s = self.solver
            if self._check() != z3.sat:
                raise PathEnd()
            # deterministic: smallest non-negative value first
            for v in range(0, lim):
                if self._check(n.t == v) == z3.sat:
                    if self.fork(n.t == v):
                        return v
            raise Unsupported("integer with unbounded range used as a concrete count")
        raise Unsupported("integer with too many values")

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=None, hi=None, gen=None):
        v = Num(t=z3.Real(name))
        self._inp(name, 'real', v)
        if lo is not None:
            self.add(v.t >= zreal(frac(lo)))
        if hi is not None:
            self.add(v.t <= zreal(frac(hi)))
        return v

    def unit(self, name, n):
        """arbitrary unit vector of n components"""
        vs = [self.real('%s.%d' % (name, i)) for i in range(n)]
        t = z3.Sum(*[v.t * v.t for v in vs])
        self.add(t == 1)
        for v in vs:
            self.add(z3.And(v.t >= -1, v.t <= 1))
        if self.ring is not None:
            self.ring.square(vs[-1].t, 1 - z3.Sum(*[v.t * v.t for v in vs[:-1]]))
        return vs

    def int(self, name, lo=None, hi=None, gen=None):
        v = Num(t=z3.Int(name), isint=True)
        self._inp(name, 'int', v)
        if lo is not None:
            self.add(v.t >= lo)
        if hi is not None:
            self.add(v.t <= hi)
        return v

    def _inp(self, name, kind, v):
        assert name not in self.inputs, name
        self.inputs[name] = (kind, v)
        self.input_order.append(name)

    def choice(self, name, options):
        options = list(options)
        assert name not in self.inputs, name
        i = self.pick(range(len(options)))
        self.inputs[name] = ('choice', i)
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def subset(self, name, items):
        return [x for x in items if self.bool('%s.%s' % (name, x))]

    # text (pyvc/strs.py)
    def run(self, name, chars, gen=None):
        """a text of one or more characters out of a set, any length"""
        from . import strs
        return strs.run(self, name, chars)

    def char(self, name, chars):
        from . import strs
        return strs.char(self, name, chars)

    def decimal(self, name, prec=3, gen=None):
        """(text, value) of a number written with up to prec decimals"""
        from . import strs
        return strs.decimal(self, name, prec)

    def lazy(self, name, options, gen=None):
        from . import strs
        return strs.lazy(self, name, options)

    def reader(self, t):
        from . import strs
        return strs.Reader(t)

    def number(self, t, how='float'):
        from . import rt, strs
        return rt.to_float(t) if how == 'float' else (int(t) if isinstance(t, str) else strs.to_number(t, 'int'))

    def str(self, x):
        from . import rt
        return rt.tostr(x)

    def tool(self, name, argv, step):
        from . import scripts
        return scripts.tool(self, name, argv, step)

    def fullmatch(self, pattern, text):
        from . import symre
        return symre.fullmatch(pattern, text) is not None

    def identify(self, a, b):
        """assume a == b for an integer variable a (or its negation) not used before, and write b for it"""
        self.assume(a == b)
        t, u = term(a, False), term(b, False)
        while z3.is_app_of(t, z3.Z3_OP_UMINUS) or (z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() == -1):
            t, u = t.arg(t.num_args() - 1), -u
        if not z3.is_const(t):
            raise Unsupported('the variable to identify is not free')
        if self.ring is not None:
            self.ring.define(t, 'is', u)

    def outside(self, why):
        """the code is not built the way this contract describes: no verdict"""
        raise Unsupported(why)

    def sample_only(self):
        """True in concrete mode only (code that needs real floats)"""
        return False

    # ------------------------------------------------------------ logic helpers (shared API with concrete mode)
    def lit(self, x):
        return Num(q=frac(x)) if not isinstance(x, Num) else x

    def And(self, *a):
        a = [x for x in a if x is not True]
        if any(x is False for x in a):
            return False
        return mkbool(z3.And(*[boolterm(x) for x in a])) if a else True

    def Or(self, *a):
        a = [x for x in a if x is not False]
        if any(x is True for x in a):
            return True
        return mkbool(z3.Or(*[boolterm(x) for x in a])) if a else False

    def Not(self, a):
        return (not a) if isinstance(a, bool) else mkbool(z3.Not(a.t))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return mkbool(z3.simplify(boolterm(a) == boolterm(b)))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        i = sym._isint(a) and sym._isint(b)
        return Num(t=z3.If(c.t, term(a, not i), term(b, not i)), isint=i)

    def eq(self, a, b, tol=None):
        if sym.is_number(a) and sym.is_number(b):
            r = Num.__eq__(a if isinstance(a, Num) else Num(q=frac(a)), b)
            return r
        r = (a == b)
        return r if isinstance(r, (bool, SymBool)) else bool(r)

    def le(self, a, b, tol=None):
        return (a if isinstance(a, Num) else Num(q=frac(a))) <= b

    def lt(self, a, b, tol=None):
        return (a if isinstance(a, Num) else Num(q=frac(a))) < b

    def gap(self, *xs):
        return True

    def obj(self, name, gen):
        raise Unsupported("concrete-only input")

    def sin(self, x):
        from . import trig
        return trig.sin(x)

    def cos(self, x):
        from . import trig
        return trig.cos(x)

    @property
    def pi(self):
        from . import trig
        return trig.pi

    def sure(self, b):
        """Case split on a condition in the specification itself"""
        return bool(b)

    def min(self, a, b):
        return self.ite(self.le(a, b), a, b)

    def max(self, a, b):
        return self.ite(self.le(b, a), a, b)

    # ------------------------------------------------------------ obligations
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            self.stats.infeasible += 1
            raise PathEnd()
        if self.ring is not None:
            t = self.ring.rel(boolterm(cond))
            if not isinstance(t, bool):
                self.add(t)
        self.add(boolterm(cond))
        if len(self.trace) < len(self.prefix):
            return          # found feasible when this prefix was first followed
        if (self._linear() if self.opts.get('feas') == 'lin' else self._check()) == z3.unsat:
            self.stats.infeasible += 1
            raise PathEnd()

    def cover(self, label):
        self.stats.covers.add(label)

    def note(self, s):
        self.stats.assumed.add(s)

    def check(self, label, cond, lemma=False, hint=None):
        if len(self.trace) < len(self.prefix):
            # this very condition was generated (and handed to the solver) when the prefix was first followed
            if isinstance(cond, SymBool) and lemma:
                self.add(cond.t)
            return True
        st = self.stats
        st.vcs += 1
        lab = st.labels.setdefault(label, [0, 0])
        lab[0] += 1
        if not isinstance(cond, (bool, SymBool)):
            cond = bool(cond)
        if cond is True:
            st.discharged += 1
            st.trivial += 1
            lab[1] += 1
            return True
        if cond is False:
            r = self._check() if self.ring is None else self._prove(z3.BoolVal(True))[0]
            if r == z3.unsat:
                raise PathEnd()
            self._fail('refuted' if r == z3.sat else 'unknown', label, "clause is false on this path", None)
            return False
        if self.ring is not None:
            t = self.ring.rel(cond.t)
            if t is True:
                st.discharged += 1
                lab[1] += 1
                st.backends['ring'] = st.backends.get('ring', 0) + 1
                if lemma:
                    self.add(cond.t)
                return True
            if not isinstance(t, bool):
                cond = SymBool(t)
        neg = z3.Not(cond.t)
        r, model, backend = self._prove(neg)
        st.backends[backend] = st.backends.get(backend, 0) + 1
        if r == z3.unsat:
            st.discharged += 1
            lab[1] += 1
            if len(st.samples) < 3:
                st.samples.append("%s: %s" % (label, str(z3.simplify(cond.t))[:300]))
            if lemma:
                self.add(cond.t)
            return True
        self._fail('refuted' if r == z3.sat else 'unknown', label,
                   "negated clause is %s: %s" % (r, str(cond.t)[:600]), model, extra=neg)
        return False

    def _prove(self, neg):
        """unsat => proved"""
        t0 = time.time()
        try:
            self.solver.set('timeout', slack(4000))
            self.stats.solver_calls += 1
            if self.ring is not None:
                if self._linear(neg) == z3.unsat:
                    return z3.unsat, None, 'z3:linear'
                return self._isolated(neg)
            r = self.solver.check(neg)
            if r != z3.unknown:
                m = self.solver.model() if r == z3.sat else None
                return r, m, 'z3'
            for name in self.opts.get('tactics', ('qfnra-nlsat', 'smt')):
                try:
                    s = z3.Tactic(name).solver() if name != 'smt' else z3.SimpleSolver()
                    s.set('timeout', slack(TIMEOUT_OB))
                    fs = self.relevant(neg)
                    s.add(*fs)
                    s.add(neg)
                    self.stats.solver_calls += 1
                    r = s.check()
                    if r != z3.unknown:
                        return r, (s.model() if r == z3.sat else None), 'z3:' + name
                except z3.Z3Exception:
                    continue
            r = self._cvc5(neg)
            if r == z3.unsat:
                return r, None, 'cvc5'
            return z3.unknown, None, 'none'
        finally:
            self.solver.set('timeout', slack(TIMEOUT_FEAS))
            self.stats.solver_s += time.time() - t0

    def _isolated(self, neg, seconds=20):
        """solver run in a child process: large polynomials can make it overrun its own time limit"""
        import pickle, select, signal
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                out = ('unknown', None, 'none')
                os.close(rfd)
                for name in ('z3', 'qfnra-nlsat'):
                    s = self.solver if name == 'z3' else z3.Tactic(name).solver()
                    s.set('timeout', slack(6000))
                    if name != 'z3':
                        s.add(*self.path)
                    r = s.check(neg)
                    if r != z3.unknown:
                        out = (str(r), self.values(s.model()) if r == z3.sat else None, name)
                        break
                os.write(wfd, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(wfd)
        data = b''
        end = time.time() + slack(1000 * seconds) / 1000.0
        while True:
            ready, _, _ = select.select([rfd], [], [], max(0.0, end - time.time()))
            if not ready:
                break
            b = os.read(rfd, 65536)
            if not b:
                break
            data += b
        os.close(rfd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        try:
            r, vals, name = pickle.loads(data)
        except Exception:
            r, vals, name = 'unknown', None, 'none'
        return {'sat': z3.sat, 'unsat': z3.unsat}.get(r, z3.unknown), vals, name

    def let(self, x):
        """a name for a number (the solver sees its value only where it needs to)"""
        v = self.fresh('let')
        self.add(v.t == term(x))
        if self.ring is not None:
            self.ring.define(v.t, 'is', term(x))
        return v

    def by(self, label, goal, *hyps):
        """goal follows from the given facts alone (each checked on its own first); known from then on"""
        for i, h in enumerate(hyps):
            self.check('%s [fact %d]' % (label, i + 1), h, lemma=True)
        if len(self.trace) < len(self.prefix):
            self.add(boolterm(goal))
            return True
        st = self.stats
        st.vcs += 1
        lab = st.labels.setdefault(label, [0, 0])
        lab[0] += 1
        t0 = time.time()
        hs = [boolterm(h) for h in hyps] + [z3.Not(boolterm(goal))]
        r = z3.unknown
        for name, ms in (('qfnra-nlsat', 10000), ('smt', 10000)):
            s = z3.Tactic(name).solver() if name != 'smt' else z3.SimpleSolver()
            s.set('timeout', slack(ms))
            s.add(*hs)
            st.solver_calls += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                st.backends['z3:' + name] = st.backends.get('z3:' + name, 0) + 1
                break
        st.solver_s += time.time() - t0
        if r == z3.unsat:
            st.discharged += 1
            lab[1] += 1
            self.add(boolterm(goal))
            return True
        st.vcs -= 1
        lab[0] -= 1
        return self.check(label, goal, lemma=True)

    def relevant(self, t):
        return list(self.path)

    def _cvc5(self, neg):
        try:
            import cvc5
            from cvc5 import Kind
            s = z3.Solver()
            s.add(*self.path)
            s.add(neg)
            txt = s.sexpr()
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(slack(TIMEOUT_OB)))
            slv.setOption('nl-cov', 'true')
            slv.setLogic('ALL')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt + "\n(check-sat)\n", "vc")
            sm = p.getSymbolManager()
            out = ''
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out += cmd.invoke(slv, sm)
            return z3.unsat if 'unsat' in out else z3.unknown
        except Exception:
            return z3.unknown

    def _fail(self, kind, label, detail, model, extra=None):
        if model is None and self.ring is not None:
            if extra is None:
                _, model, _ = self._isolated(z3.BoolVal(True), 10)
        elif model is None:
            self.solver.set('timeout', slack(TIMEOUT_OB))
            if extra is not None:
                r = self.solver.check(extra)
            else:
                r = self.solver.check()
            if r == z3.sat:
                model = self.solver.model()
        vals = model if isinstance(model, dict) else self.values(model)
        # prefer a small / dyadic model
        smt = None
        try:
            s = z3.Solver()
            s.add(*self.path)
            if extra is not None:
                s.add(extra)
            smt = s.sexpr()[:20000]
        except Exception:
            pass
        if self.imprecise:
            raise Unsupported("clause not shown where a match was abstracted: %s" % label)
        self.failures.append(Failure(kind, label, detail, vals, list(self.trace), smt, self.choice_names()))
        if len(self.failures) >= 3:
            raise CheckFailed()

    def values(self, model):
        out = {}
        for n in self.input_order_all():
            kind, v = self.inputs[n]
            if kind == 'choice':
                out[n] = v
            elif kind == 'text':
                out[n] = v.concrete(model) if model is not None else None
            elif model is None:
                out[n] = None
            else:
                x = model.eval(v.t, model_completion=True)
                out[n] = to_py(x, kind)
        return out

    def choice_names(self):
        return [n for n in self.inputs if self.inputs[n][0] == 'choice']

    def input_order_all(self):
        return list(self.inputs)

    # ------------------------------------------------------------ arithmetic rules
    def _ck(self, key, *nums):
        ts = tuple(term(n).get_id() if isinstance(n, Num) and n.q is None else ('q', frac(n.q if isinstance(n, Num) else n)) for n in nums)
        for n in nums:
            self.keep.append(term(n))
        return (key,) + ts

    def divide(self, a, b):
        k = ('div', a.get_id(), b.get_id())
        if k not in self.cache:
            self.keep += [a, b]
            if self.ring is not None:
                t = self.ring.simple(a / b)
                if t is not None:
                    self.cache[k] = sym.lift(t)
                    return self.cache[k]
            r = self.fresh('quot')
            self.add(r.t * b == a)
            if self.ring is not None:
                self.ring.define(r.t, 'quot', a, b)
            self.cache[k] = r
        return self.cache[k]

    def sqrt(self, x):
        if not isinstance(x, Num):
            x = Num(q=frac(x))
        if x.q is not None:
            if x.q < 0:
                raise ValueError("math domain error")
            import math
            a, b = math.isqrt(x.q.numerator), math.isqrt(x.q.denominator)
            if a * a == x.q.numerator and b * b == x.q.denominator:
                return Num(q=Fraction(a, b))
        xs = Num(t=z3.simplify(term(x)))
        k = ('sqrt', xs.t.get_id())
        if k in self.cache:
            return self.cache[k]
        self.keep.append(xs.t)
        if self.ring is not None:
            r = self._ring_sqrt(xs.t)
            if r is not None:
                self.cache[k] = r
                return r
        if not sum_of_squares(term(x)) and self.fork(xs.t < 0):
            raise ValueError("math domain error")
        r = self.fresh('sqrt')
        self.add(r.t >= 0)
        self.add(r.t * r.t == xs.t)
        if self.ring is not None:
            t = self.ring.simple(xs.t, 30)
            if t is not None and not t.eq(xs.t):
                self.add(r.t * r.t == t)
            self.ring.define(r.t, 'sqrt', xs.t)
        self.cache[k] = r
        return r

    def _ring_sqrt(self, t):
        from . import ring
        try:
            f = self.ring.normal(self.ring.value(t))
            q = self.ring.const(f)
            if q is not None:
                return self.sqrt(Num(q=q))
            r = self.ring.root(f)
        except (ring.TooBig, ZeroDivisionError):
            return None
        if r is None:
            return None
        num, den = r
        x = sym.lift(self.ring.pterm(num))
        for g in den:
            x = x / sym.lift(self.ring.pterm(dict(g)))
        if x.q is None and self.fork(x.t < 0):
            x = -x
        return x

    def floor(self, x):
        if not isinstance(x, Num) or x.q is not None:
            import math
            return math.floor(frac(x.q if isinstance(x, Num) else x))
        if x.isint:
            return x
        k = self._ck('floor', x)
        if k not in self.cache:
            r = self.fresh('floor', True)
            self.add(z3.ToReal(r.t) <= x.t)
            self.add(x.t < z3.ToReal(r.t) + 1)
            self.cache[k] = r
        return self.cache[k]

    def ceil(self, x):
        r = self.floor(-x)
        return -r

    def trunc(self, x):
        if not isinstance(x, Num):
            return int(x)
        if x.q is not None:
            return int(x.q)
        if x.isint:
            return x
        return self.floor(x) if self.fork(x.t >= 0) else self.ceil(x)

    def round(self, x, n=None):
        """nearest multiple of 10**-n; which neighbour on an exact tie is left open"""
        if n is None:
            return self._round0(x)
        n = int(n) if not isinstance(n, Num) else self.concretise(n)
        p = Fraction(10) ** n
        if isinstance(x, Num) and x.isint and n >= 0:
            return x
        return Num(q=1 / p) * sym.toreal(self._round0(x * Num(q=p)))

    def _round0(self, x):
        if not isinstance(x, Num):
            return round(x)
        if x.q is not None:
            return round(x.q)
        if x.isint:
            return x
        xs = Num(t=z3.simplify(x.t))
        k = self._ck('round', xs)
        if k not in self.cache:
            r = self.fresh('round', True)
            h = zreal(Fraction(1, 2))
            self.add(z3.ToReal(r.t) - xs.t <= h)
            self.add(xs.t - z3.ToReal(r.t) <= h)
            self.cache[k] = r
        return self.cache[k]

    def floordiv(self, a, b):
        q = self.floor(sym.toreal(a) / b)
        i = sym._isint(a) and sym._isint(b)
        return q if i else sym.toreal(q)

    def mod(self, a, b):
        if isinstance(a, str):
            raise Unsupported("str %")
        if not sym.is_number(b):
            return NotImplemented
        i = sym._isint(a) and sym._isint(b)
        if self.trig is not None:
            r = self.trig.mod(a, b)
            if r is not None:
                return r
        qb = b.q if isinstance(b, Num) else frac(b)
        qa = a.q if isinstance(a, Num) else frac(a)
        if qa is not None and qb is not None:
            r = qa % qb
            return Num(q=r)
        if i:
            if self.fork(term(b, False) == 0):
                raise ZeroDivisionError("modulo by zero")
            return Num(t=term(a, False) % term(b, False), isint=True)
        return a - b * sym.toreal(self.floor(sym.toreal(a) / b))


def sum_of_squares(t):
    """syntactically a sum of squares and non-negative constants"""
    if z3.is_add(t):
        return all(sum_of_squares(x) for x in t.children())
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if z3.is_mul(t):
        cs = t.children()
        if len(cs) == 2 and cs[0].eq(cs[1]):
            return True
        if z3.is_rational_value(cs[0]) and cs[0].numerator_as_long() >= 0 and len(cs) == 2:
            return sum_of_squares(cs[1])
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        e = t.arg(1)
        return z3.is_rational_value(e) and e.denominator_as_long() == 1 and e.numerator_as_long() % 2 == 0
    return False


def to_py(x, kind):
    if kind == 'int':
        return int(x.as_long())
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_int_value(x):
        return float(x.as_long())
    return 0.0


class ObResult(object):
    def __init__(self, name):
        self.name = name
        self.stats = Stats()
        self.failures = []
        self.undecided = []     # reasons
        self.leftover = []      # unexplored prefixes


def run_paths(pg, ob, prefixes, restore, budget_s, max_paths, deadline, opts=None):
    """Explore paths below the given prefixes; returns ObResult (with leftover prefixes)"""
    res = ObResult(ob.name)
    t0 = time.time()
    work = list(prefixes)
    while work:
        if (time.time() - t0 > budget_s and res.stats.paths > 0) or res.stats.paths >= max_paths:
            res.leftover = work
            break
        prefix = work.pop()
        restore()
        c = PathCtx(pg, prefix, res.stats, deadline, opts)
        sym.set_ctx(c)
        try:
            ob.fn(c)
            res.stats.paths += 1
        except PathEnd:
            res.stats.ended += 1
        except CheckFailed:
            res.stats.paths += 1
            res.failures += c.failures
            c.failures = []
            work += c.pending
            res.leftover = []
            res.undecided.append('stopped after failures')
            break
        except Unsupported as e:
            res.undecided.append("unsupported: %s @ %s" % (e, where()))
            res.failures += c.failures
            c.failures = []
            if len(res.undecided) > 3:
                res.leftover = []
                break
        except RecursionError:
            res.undecided.append("recursion limit")
        except Exception as e:      # the code raised where the contract allows no exception (or engine limit)
            if c.ring is not None:
                r, m, _ = c._prove(z3.BoolVal(True))
            else:
                r = c.solver.check()
                m = c.solver.model() if r == z3.sat else None
            if r != z3.unsat and c.imprecise:
                res.undecided.append("exception where a match was abstracted: %s" % e)
            elif r != z3.unsat:
                tb = traceback.format_exc(limit=-6)
                f = Failure('exception', 'no exception (%s)' % type(e).__name__, "%s\n%s" % (e, tb[-1500:]), m if isinstance(m, dict) else c.values(m), list(c.trace), None, c.choice_names())
                if not any(g.detail == f.detail for g in res.failures) or len(res.failures) < 3:
                    res.failures.append(f)
            res.stats.paths += 1
        finally:
            sym.set_ctx(None)
        work += c.pending
        res.failures += c.failures
        if len(res.failures) >= 4:
            break
    return res


def where():
    tb = sys.exc_info()[2]
    out = []
    for fr in traceback.extract_tb(tb):
        if '/repo/' in fr.filename or 'euclid' in fr.filename:
            out.append("%s:%s(%s)" % (os.path.basename(fr.filename), fr.lineno, fr.name))
    return ' > '.join(out[-3:])
