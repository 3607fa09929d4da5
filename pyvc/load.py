"""Loads the real code of /repo, mechanically instrumented, on every run.

Nothing is hand-copied: each module's source file is read, parsed, and rewritten by `Rewrite`
(which only re-routes operations CPython would not dispatch to a symbolic operand), then
executed with builtins that accept symbolic values.  What the rewriting changes:
  * float literals        -> exact rationals
  * a / b, a % b          -> rt.div / rt.mod           (int/int division, str formatting)
  * x in y, x not in y    -> rt.contains               (symbolic text in a str)
  * "..".format/join(..), f-strings -> rt.callm / rt.fstr
  * for / while loops     -> iterable or head wrapped so that a loop contract can cut the loop
  * import math, re, sys.maxsize ... -> `math` and `re` models
Everything else is compiled unchanged.
"""
import ast, builtins, importlib, importlib.abc, importlib.util, sys, os, types, copy as _copy
from . import rt, sym

REPO = os.environ.get('PYVC_REPO', '/repo')


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.counts = {}

    def _rt(self, name, node):
        return ast.copy_location(ast.Attribute(ast.Name('__rt__', ast.Load()), name, ast.Load()), node)

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(self._rt(name, node), args, []), node)

    def visit_Constant(self, node):
        if type(node.value) is float:
            return self._call('lit', [ast.Constant(repr(node.value))], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self._call('div', [node.left, node.right], node)
        if isinstance(node.op, ast.Mod):
            return self._call('mod', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Mod)) and isinstance(node.target, ast.Name):
            f = 'div' if isinstance(node.op, ast.Div) else 'mod'
            return ast.copy_location(ast.Assign([node.target], self._call(f, [ast.Name(node.target.id, ast.Load()), node.value], node)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call('contains', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
            return c
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in rt.STR_METHODS and not (
                isinstance(node.func.value, ast.Name) and node.func.value.id in ('re',)):
            return ast.copy_location(ast.Call(self._rt('callm', node),
                                              [node.func.value, ast.Constant(node.func.attr)] + node.args, node.keywords), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return self._call('fstr', parts, node)

    # ---- functions and loops
    def _func(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        return self._func(node)

    def visit_Raise(self, node):
        """raise E(args) -> raise raising(E, lambda: (args)): see there"""
        self.generic_visit(node)
        e = node.exc
        if not (isinstance(e, ast.Call) and e.args and not e.keywords) or \
                any(isinstance(n, (ast.Starred, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(n, ast.Name) and n.id in ('super', 'locals') for n in ast.walk(e)):
            return node
        args = ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Tuple(e.args, ast.Load()))
        node.exc = self._call('raising', [e.func, args], e)
        return ast.fix_missing_locations(node)

    def _loop_id(self, kind):
        q = '.'.join(self.stack)
        k = self.counts.get((q, kind), 0)
        self.counts[(q, kind)] = k + 1
        return "%s:%s#%s%d" % (self.modname.replace("pygcode.", "", 1), q, kind, k)

    def _assigned(self, node):
        names = []

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                    names.append(n.id)

            def visit_FunctionDef(s, n):
                if n.name not in names:
                    names.append(n.name)

            def visit_ListComp(s, n):
                pass
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = visit_ListComp
        for b in node.body + node.orelse:
            V().visit(b)
        if isinstance(node, ast.For):
            V().visit(node.target)
        return [n for n in names if not n.startswith('__rt__')]

    def _wrap_loop(self, node, kind):
        """for T in X: B   ->  h = loop(lid, X, names); for T in h: (if h.active: names = h.take()); B   else: (if h.active: names = h.take())
        while C: B      ->  h = loop(lid, None, names); while True: (if h.step(locals()): names = h.take()); if not C: break; B"""
        infunc = bool(self.stack) or getattr(self, 'top', False)
        lid = self._loop_id(kind)
        names = self._assigned(node)
        if kind == 'for':
            tnames = set(n.id for n in ast.walk(node.target) if isinstance(n, ast.Name))
            names = [n for n in names if n not in tnames]
        self.generic_visit(node)
        if not infunc or (kind == 'while' and node.orelse):
            return node
        self.handles = getattr(self, 'handles', 0) + 1
        h = '__rt_h%d__' % self.handles
        it = node.iter if kind == 'for' else ast.Constant(None)
        begin = ast.Assign([ast.Name(h, ast.Store())],
                           ast.Call(self._rt('loop', node), [ast.Constant(lid), it, ast.Constant(tuple(names))], []))
        ast.copy_location(begin, node)

        def take():
            call = ast.Call(ast.Attribute(ast.Name(h, ast.Load()), 'take', ast.Load()), [], [])
            if not names:
                return ast.Expr(call)
            return ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], call)

        def cond(test):
            return ast.copy_location(ast.If(test, [take()], []), node)
        if kind == 'for':
            act = lambda: ast.Attribute(ast.Name(h, ast.Load()), 'active', ast.Load())
            node.iter = ast.Name(h, ast.Load())
            node.body.insert(0, cond(act()))
            node.orelse.insert(0, cond(act()))
        else:
            step = ast.Call(ast.Attribute(ast.Name(h, ast.Load()), 'step', ast.Load()), [
                ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
            stop = ast.copy_location(ast.If(node.test, [ast.Pass()], [ast.Break()]), node)
            node.test = ast.copy_location(ast.Constant(True), node)
            node.body[0:0] = [cond(step), stop]
        return [begin, node]

    def visit_For(self, node):
        return self._wrap_loop(node, 'for')

    def visit_While(self, node):
        return self._wrap_loop(node, 'while')


def unbound_safe(names):
    return names


class SymLoader(importlib.abc.Loader):
    def __init__(self, owner, name, path, ispkg):
        self.owner, self.name, self.path, self.ispkg = owner, name, path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        self.owner.sources[self.name] = src
        tree = ast.parse(src, self.path)
        tree = Rewrite(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        module.__dict__['__builtins__'] = rt.BUILTINS
        module.__dict__['__rt__'] = rt
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """pygcode (from /repo/src) and euclid3 (from site-packages), instrumented"""
    def __init__(self, src, euclid):
        self.src, self.euclid = src, euclid
        self.sources = {}

    def find_spec(self, name, path, target=None):
        if name == 'euclid3':
            p, pkg = self.euclid, False
        elif name == 'pygcode' or name.startswith('pygcode.'):
            rel = os.path.join(self.src, *name.split('.'))
            if os.path.isdir(rel):
                p, pkg = os.path.join(rel, '__init__.py'), True
            else:
                p, pkg = rel + '.py', False
            if not os.path.exists(p):
                return None
        else:
            return None
        return importlib.util.spec_from_loader(name, SymLoader(self, name, p, pkg), origin=p, is_package=pkg)


def euclid_path():
    for d in ('/opt/venv/lib/python3.12/site-packages', ) + tuple(sys.path):
        p = os.path.join(d, 'euclid3.py')
        if os.path.exists(p):
            return p
    raise RuntimeError('euclid3 not found')


def load():
    """Fresh instrumented import; returns the pygcode package"""
    for n in list(sys.modules):
        if n == 'pygcode' or n.startswith('pygcode.') or n == 'euclid3':
            del sys.modules[n]
    try:
        import six   # noqa
    except ImportError:
        sys.path.append('/opt/venv/lib/python3.12/site-packages')
        import six   # noqa
    f = Finder(os.path.join(REPO, 'src'), euclid_path())
    sys.meta_path.insert(0, f)
    sys.dont_write_bytecode = True
    pkg = importlib.import_module('pygcode')
    for m in ('machine', 'words', 'gcodes', 'block', 'line', 'comment', 'transform', 'utils', 'exceptions', 'dialects', 'dialects.linuxcnc'):
        importlib.import_module('pygcode.' + m)
    pkg._pyvc_finder = f
    return pkg


# ---------------------------------------------------------------- state restoration between paths
class Snapshot(object):
    """Restores module globals, class attributes and the mutable containers reachable from them
    (also default arguments), so that no path sees what another path wrote."""
    def __init__(self, prefixes=('pygcode', 'euclid3')):
        self.dicts = []         # (namespace setter, saved dict)
        self.containers = []    # (container, saved copy)
        seen = set()
        classes = []
        for n, m in list(sys.modules.items()):
            if n.split('.')[0] in prefixes and m is not None:
                self.dicts.append((m.__dict__, dict(m.__dict__)))
                for v in list(m.__dict__.values()):
                    self._walk(v, seen, classes, 0)
        self.classes = [(k, {a: b for a, b in k.__dict__.items()}) for k in classes]

    def _walk(self, v, seen, classes, depth):
        if id(v) in seen or depth > 6:
            return
        if isinstance(v, type):
            if (getattr(v, '__module__', '') or '').split('.')[0] in ('pygcode', 'euclid3'):
                seen.add(id(v))
                classes.append(v)
                for x in list(v.__dict__.values()):
                    self._walk(x, seen, classes, depth + 1)
        elif isinstance(v, (dict, list, set)) and v is not rt.BUILTINS:
            seen.add(id(v))
            self.containers.append((v, _copy.copy(v)))
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                self._walk(x, seen, classes, depth + 1)
        elif isinstance(v, (types.FunctionType, classmethod, staticmethod)):
            seen.add(id(v))
            f = getattr(v, '__func__', v)
            for x in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                self._walk(x, seen, classes, depth + 1)
            for cell in (f.__closure__ or ()):
                try:
                    self._walk(cell.cell_contents, seen, classes, depth + 1)
                except ValueError:
                    pass
        elif hasattr(v, '__dict__') and type(v).__module__.split('.')[0] in ('pygcode', 'euclid3'):
            seen.add(id(v))
            self.containers.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._walk(x, seen, classes, depth + 1)
        elif type(v).__module__ == 'euclid3' and hasattr(type(v), '__slots__'):
            seen.add(id(v))
            self.containers.append((v, {s: getattr(v, s) for s in type(v).__slots__ if hasattr(v, s)}))

    def restore(self):
        for d, saved in self.dicts:
            if d != saved if len(d) == len(saved) else True:
                pass
            for k in list(d):
                if k not in saved:
                    del d[k]
            for k, v in saved.items():
                if d.get(k) is not v:
                    d[k] = v
        for k, saved in self.classes:
            cur = k.__dict__
            for a in list(cur):
                if a not in saved and a not in ('__weakref__', '__dict__'):
                    try:
                        delattr(k, a)
                    except Exception:
                        pass
            for a, v in saved.items():
                if cur.get(a) is not v:
                    try:
                        setattr(k, a, v)
                    except Exception:
                        pass
        for o, saved in self.containers:
            if isinstance(o, dict):
                if not same_items(o, saved):
                    o.clear()
                    o.update(saved)
            elif isinstance(o, list):
                o[:] = saved
            elif isinstance(o, set):
                if len(o) != len(saved):
                    o.clear()
                    o.update(saved)
            else:
                for a, v in saved.items():
                    if getattr(o, a, None) is not v:
                        setattr(o, a, v)


def same_items(o, saved):
    """same keys and values, by identity and in the same order"""
    if len(o) != len(saved):
        return False
    for (k, v), (a, b) in zip(o.items(), saved.items()):
        if k is not a or v is not b:
            return False
    return True
