"""The command line tools (scripts/), run in process: program text in on stdin, printed lines out"""
import io
import os
import sys

REPO = os.environ.get('PYVC_REPO', '/repo')
CACHE = {}


class Exited(Exception):
    pass


def source(name):
    p = os.path.join(REPO, 'scripts', name)
    with open(p, encoding='utf-8') as f:
        return p, f.read()


def run(name, argv, lines):
    """unmodified script on a program (list of lines without line ends) -> printed lines"""
    if name not in CACHE:
        p, src = source(name)
        CACHE[name] = (p, compile(src, p, 'exec'))
    p, code = CACHE[name]
    out = []

    def show(*a):
        out.extend(' '.join(str(x) for x in a).split('\n'))
    old = sys.argv, sys.stdin, sys.stderr
    sys.argv = [p] + [a for a in argv]
    sys.stdin = io.StringIO(''.join(x + '\n' for x in lines))
    sys.stderr = err = io.StringIO()
    try:
        exec(code, {'__name__': '__main__', '__file__': p, 'print': show})
    except SystemExit as e:
        raise Exited('%s exits: %s' % (name, err.getvalue().strip()[-200:]))
    finally:
        sys.argv, sys.stdin, sys.stderr = old
    return out


# ---------------------------------------------------------------- one arbitrary line (contract of the main loop)
class Step(object):
    """The main loop of a tool, reading program lines: what one arbitrary iteration does.

    state(c, m): called at the head of the loop with the tool's machine: put it in an arbitrary state
    line(c): the text of the line
    after(c, m, out): called at the end of that iteration with the lines printed by it
    finish(c, out): called when the tool ends right at the head of the loop (symbolic) or after the line (concrete)"""
    index = 0

    def finish(self, c, out):
        pass


def find_machines(pg, files):
    """machines in the variables of the tool's frames"""
    out = []
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_filename in files:
            for v in list(f.f_locals.values()) + list(f.f_globals.values()):
                if isinstance(v, pg.machine.Machine) and not any(v is x for x in out):
                    out.append(v)
        f = f.f_back
    return out


class Source(object):
    """stands for the opened input file"""
    def __init__(self, c, path, step, out):
        self.c, self.path, self.step, self.out = c, path, step, out
        self.entered = False

    def readlines(self):
        return self

    def read(self, *a):
        self.c.outside('the tool reads its input as one text')

    def close(self):
        pass

    def fileno(self):
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def machine(self):
        ms = find_machines(self.c.pg, (self.path,))
        if len(ms) != 1:
            self.c.outside('the tool has %d machines at the head of its main loop' % len(ms))
        return ms[0]

    def _pyvc_list(self):
        return self


class Feed(Source):
    """iterating it is the main loop"""
    def enter(self):
        self.m = self.machine()
        self.step.state(self.c, self.m)
        self.entered = True

    def first(self):
        return self.step.line(self.c)

    def leave(self):
        self.step.after(self.c, self.m, list(self.out))

    # concrete runs
    def __iter__(self):
        if self.entered:
            self.c.outside('the input is read twice')
        for k in range(self.step.index):
            yield '\n'
        self.enter()
        yield self.first() + '\n'
        self.leave()
        del self.out[:]

    def _pyvc_enumerate(self, start=0):
        return Counted(self, start)

    @property
    def _pyvc_spec(self):
        return contract(self)


class Several(object):
    """A few consecutive iterations of the main loop, the tool's machine put in an arbitrary state before each of them.

    count; index(c, k): lines of the file before it; filler(c, m, n): about to feed an empty line, n lines before it
    (concrete runs only; rejects where that line would matter); number(i): the index taken;
    state(c, m, k), line(c, k), after(c, m, k, out) as for Step; finish(c, out): the tool ended"""


class Chain(Source):
    def __iter__(self):
        for i, t in self.lines(False):
            yield t

    def _pyvc_enumerate(self, start=0):
        for i, t in self.lines(True):
            yield i + start, t

    def lines(self, numbered):
        """(lines before it, text). Concrete runs really feed the tool that many lines; symbolically the number is
        arbitrary where the tool asks for it with enumerate, and consecutive otherwise"""
        if self.entered:
            self.c.outside('the input is read twice')
        self.entered = True
        c, s = self.c, self.step
        m = self.machine()
        n = 0
        for k in range(s.count):
            i = s.index(c, k) if numbered or not c.symbolic else n
            if not c.symbolic:
                while n < i:
                    s.filler(c, m, n)
                    yield n, '\n'
                    n += 1
                del self.out[:]
            n = i + 1
            s.number(i)
            s.state(c, m, k)
            t = s.line(c, k)
            yield i, t + '\n'
            out = list(self.out)
            del self.out[:]
            s.after(c, m, k, out)


class Counted(object):
    def __init__(self, feed, start):
        self.feed, self.start = feed, start

    @property
    def _pyvc_spec(self):
        return contract(self.feed, self.start)


def contract(feed, start=None):
    from .loops import LoopSpec

    class Main(LoopSpec):
        name = 'main loop'

        def applies(self, c, it):
            return True

        def sequence(self, c, it):
            n = c.fresh('lines', True)
            c.assume(n >= 0)
            return n, lambda k: (feed.first() if start is None else (k + start, feed.first()))

        def havoc(self, c, L, k):
            if feed.entered:
                c.outside('the input is read twice')
            if hasattr(feed.step, 'at'):
                feed.step.at(c, k)
            feed.enter()
            return dict(feed.step.locals(c, L) if hasattr(feed.step, 'locals') else {})

        def after(self, c, L):
            feed.leave()
    return Main()


def tool(c, name, argv, step):
    """unmodified (symbolically: instrumented) script, its main loop running one arbitrary iteration"""
    p, src = source(name)
    out = []
    feed = (Chain if isinstance(step, Several) else Feed)(c, p, step, out)

    def show(*a, **k):
        if k or len(a) > 1:
            c.outside('print with several values')
        out.append(c.str(a[0]) if a else '')
    ns = {'__name__': '__main__', '__file__': p, 'print': show}
    key = (name, c.symbolic)
    if key not in CACHE:
        if c.symbolic:
            import ast
            from .load import Rewrite
            r = Rewrite('scripts/' + name)
            r.top = True
            tree = r.visit(ast.parse(src, p))
            ast.fix_missing_locations(tree)
            CACHE[key] = compile(tree, p, 'exec')
        else:
            CACHE[key] = compile(src, p, 'exec')
    if c.symbolic:
        from . import rt
        ns['__builtins__'] = dict(rt.BUILTINS, print=show)
        ns['__rt__'] = rt
    old = sys.argv, sys.stdin, sys.stderr
    sys.argv = [p] + list(argv)
    sys.stdin = feed
    sys.stderr = err = io.StringIO()
    try:
        exec(CACHE[key], ns)
    except SystemExit:
        raise Exited('%s exits: %s' % (name, err.getvalue().strip()[-200:]))
    finally:
        sys.argv, sys.stdin, sys.stderr = old
    if not feed.entered:
        c.outside('the tool does not iterate over the lines of its input')
    step.finish(c, list(out))
