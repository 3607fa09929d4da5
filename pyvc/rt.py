"""Run-time support for instrumented code: builtins and operators that accept symbolic values."""
import builtins, sys, types, string as _string
from fractions import Fraction
import z3
from . import sym
from .sym import Num, SymBool, Unsupported, frac

STR_METHODS = {'format', 'join', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'startswith', 'endswith', 'upper', 'lower',
               'find', 'index', 'count', 'partition', 'rpartition', 'isdigit', 'isspace', 'isalpha', 'splitlines', 'zfill', 'ljust', 'rjust'}


def strs():
    from . import strs as S
    return S


def is_sstr(x):
    return getattr(type(x), '_pyvc_sstr', False)


def lit(text):
    return Num(q=frac(float(text)))


def div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, sym.Num):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Num(q=frac(a) / frac(b))
    return a / b


def mod(a, b):
    if isinstance(a, str):
        return fmt_percent(a, b)
    if is_sstr(a):
        raise Unsupported("symbolic format string")
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a % b
    if sym.CTX is not None and isinstance(b, (Num, int, float)) and isinstance(a, (Num, int, float)):
        return sym.CTX.mod(a, b)
    return a % b


def contains(a, b):
    if isinstance(b, str) and is_sstr(a):
        return strs().contains(a, b)
    if is_sstr(b):
        return strs().contains(a, b)
    return a in b


# ------------------------------------------------------------------ text
def tostr(x):
    """str(x), possibly symbolic"""
    if isinstance(x, str) or is_sstr(x):
        return x
    if isinstance(x, Num):
        if x.q is not None and x.q.denominator == 1 and not x.isint:
            return repr(float(x.q))
        if x.q is not None:
            return repr(float(x.q))
        return strs().from_number(x, 'str')
    if isinstance(x, (list, tuple, dict, set, frozenset)):
        return strs().opaque(x) if _hassym(x) else str(x)
    if x is None or isinstance(x, (int, float, type)):
        return str(x)
    if isinstance(x, SymBool):
        return 'True' if bool(x) else 'False'
    f = type(x).__str__
    if f is object.__str__:
        return torepr(x)
    if isinstance(x, BaseException):
        return str(x)
    return f(x)


def torepr(x):
    if isinstance(x, str):
        return repr(x)
    if is_sstr(x) or isinstance(x, Num):
        return strs().opaque(x)
    if isinstance(x, (list, tuple, dict, set, frozenset)):
        return strs().opaque(x) if _hassym(x) else repr(x)
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def _hassym(x, d=0):
    if d > 4:
        return True
    if isinstance(x, (Num, SymBool)) or is_sstr(x):
        return True
    if isinstance(x, dict):
        return any(_hassym(k, d + 1) or _hassym(v, d + 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(_hassym(v, d + 1) for v in x)
    return not isinstance(x, (str, int, float, type(None)))


_PCT = None


def fmt_percent(f, arg):
    args = list(arg) if isinstance(arg, tuple) else [arg]
    if isinstance(arg, dict) and '%(' in f:
        raise Unsupported("mapping format")
    import re
    out = []
    pos = 0
    for m in re.finditer(r'%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])', f):
        out.append(f[pos:m.start()])
        pos = m.end()
        flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if width == '*':
            width = args.pop(0)
        if prec == '*':
            prec = args.pop(0)
        if not args:
            raise TypeError("not enough arguments for format string")
        a = args.pop(0)
        out.append(fmt_one(a, flags, None if width is None else int(width), None if prec is None else int(prec), conv))
    out.append(f[pos:])
    if args and not isinstance(arg, dict):
        raise TypeError("not all arguments converted during string formatting")
    return strs().concat(out)


def _sym(x):
    return (isinstance(x, Num) and x.q is None) or is_sstr(x)


def fmt_one(a, flags, width, prec, conv):
    if conv == 's':
        s = tostr(a)
        if prec is not None:
            raise Unsupported("%.s")
        if isinstance(s, str):
            return ('%' + flags + ('' if width is None else str(width)) + 's') % s
        if width:
            raise Unsupported("width of symbolic text")
        return s
    if conv in 'ra':
        return torepr(a)
    if isinstance(a, Num) and a.q is not None:
        a = int(a.q) if (conv in 'dix' and a.q.denominator == 1) else float(a.q)
    if not _sym(a):
        spec = '%' + flags + ('' if width is None else str(width)) + ('' if prec is None else '.%d' % prec) + conv
        return spec % a
    if is_sstr(a):
        raise TypeError("must be real number, not str")
    if flags or width:
        raise Unsupported("format %%%s%s of a symbolic number" % (flags, width))
    return strs().from_number(a, conv, prec)


def format_field(a, spec):
    if spec == '' or spec == 's':
        return tostr(a)
    if _sym(a):
        import re
        m = re.match(r'^(?:\.(\d+))?([dfgFG])$', spec)
        if not m:
            raise Unsupported("format spec %r of a symbolic value" % spec)
        return fmt_one(a, '', None, None if m.group(1) is None else int(m.group(1)), m.group(2))
    if isinstance(a, Num):
        a = float(a.q)
    return format(a, spec)


def do_format(f, args, kwargs):
    out = []
    auto = 0
    for (text, field, spec, conv) in _string.Formatter().parse(f):
        out.append(text)
        if field is None:
            continue
        if field == '':
            a = args[auto]
            auto += 1
        elif field.isdigit():
            a = args[int(field)]
        elif field in kwargs:
            a = kwargs[field]
        else:
            a, _ = _string.Formatter().get_field(field, args, kwargs)
        if conv == 'r':
            a = torepr(a)
        elif conv == 's':
            a = tostr(a)
        out.append(format_field(a, spec or ''))
    return strs().concat(out)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif is_sstr(p):
            out.append(p)
        else:
            (v, conv, spec) = p
            if conv == 114:
                v = torepr(v)
            elif conv == 115:
                v = tostr(v)
            out.append(format_field(v, spec))
    return strs().concat(out)


def callm(obj, name, *args, **kwargs):
    if isinstance(obj, str):
        if name == 'format':
            return do_format(obj, args, kwargs)
        if name == 'join':
            return strs().join(obj, list(args[0]))
        if any(_sym(a) for a in args):
            return strs().lift(obj, name, args)
        return getattr(obj, name)(*args, **kwargs)
    return getattr(obj, name)(*args, **kwargs)


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, Num) and not o.isint)

    def __subclasscheck__(cls, k):
        return issubclass(k, float)

    def __call__(cls, x=0.0):
        return to_float(x)

    def __eq__(cls, o):
        return o is float or o is Float

    def __hash__(cls):
        return hash(float)

    def __repr__(cls):
        return repr(float)


class Float(metaclass=_FloatMeta):
    pass


Float.__name__ = 'float'


def to_float(x):
    if isinstance(x, Num):
        return sym.toreal(x)
    if is_sstr(x):
        return strs().to_number(x, 'float')
    if isinstance(x, SymBool):
        return Num(q=Fraction(1 if bool(x) else 0))
    if isinstance(x, str):
        v = float(x)
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported("non-finite")
        from decimal import Decimal
        return Num(q=Fraction(Decimal(x.strip().replace('_', ''))))
    if isinstance(x, (int, float)):
        return Num(q=frac(x))
    return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, Num) and o.isint)

    def __subclasscheck__(cls, k):
        return issubclass(k, int)

    def __call__(cls, x=0, *base):
        return to_int(x, *base)

    def __eq__(cls, o):
        return o is int or o is Int

    def __hash__(cls):
        return hash(int)


class Int(metaclass=_IntMeta):
    pass


Int.__name__ = 'int'


def to_int(x, *base):
    if isinstance(x, Num):
        return sym.ctx().trunc(x)
    if is_sstr(x):
        return strs().to_number(x, 'int')
    if isinstance(x, SymBool):
        return 1 if bool(x) else 0
    return int(x, *base)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, str) or is_sstr(o)

    def __subclasscheck__(cls, k):
        return issubclass(k, str)

    def __call__(cls, *a):
        if not a:
            return ''
        return tostr(a[0])

    def __getattr__(cls, n):
        return getattr(str, n)

    def __eq__(cls, o):
        return o is str or o is Str

    def __hash__(cls):
        return hash(str)


class Str(metaclass=_StrMeta):
    pass


Str.__name__ = 'str'


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            o = a[0]
            if isinstance(o, Num):
                return Int if o.isint else Float
            if is_sstr(o):
                return Str
            if isinstance(o, SymBool):
                return bool
            return type(o)
        return type(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __getattr__(cls, n):
        return getattr(type, n)

    def __eq__(cls, o):
        return o is type or o is Type

    def __hash__(cls):
        return hash(type)


class Type(metaclass=_TypeMeta):
    """`type` as the code sees it: symbolic numbers and text have the types they stand for"""


def b_isinstance(o, k):
    if o.__class__.__module__[:4] != 'pyvc':
        return isinstance(o, k)
    if isinstance(k, tuple):
        for x in k:
            if b_isinstance(o, x):
                return True
        return False
    if isinstance(o, Num):
        return (k in (float, Float) and not o.isint) or (k in (int, Int) and o.isint) or k is object
    if is_sstr(o):
        return k in (str, Str) or k is object
    if isinstance(o, SymBool):
        return k in (bool, int, Int)
    return isinstance(o, k)


def b_hash(x):
    if isinstance(x, tuple):
        r = 17
        for y in x:
            r = (r * 31 + b_hash(y)) & 0xffffffff
        return r
    if isinstance(x, (Num, SymBool, int, float)) or is_sstr(x):
        return 0
    return hash(x)


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, Num):
        return x.__round__(n)
    if isinstance(x, (int, float)):
        return round(x) if n is None else round(x, n)
    return round(x, n) if n is not None else round(x)


def _minmax(name, pick):
    orig = getattr(builtins, name)

    def f(*a, **k):
        if not k and len(a) == 2 and all(sym.is_number(x) for x in a) and any(isinstance(x, Num) for x in a):
            x, y = a
            if isinstance(x, Num) and x.q is not None and isinstance(y, Num) and y.q is not None:
                return orig(x, y)
            c = (y < x) if name == 'min' else (y > x)
            return sym.ctx().ite(c, y, x)
        if not k and len(a) == 1 and not isinstance(a[0], (str, dict)):
            items = list(a[0])
            if len(items) == 2 and all(sym.is_number(x) for x in items):
                return f(*items)
            return orig(items)
        return orig(*a, **k)
    f.__name__ = name
    return f


def b_len(x):
    f = getattr(type(x), '_pyvc_len', None)
    if f is not None:
        return f(x)
    return len(x)


def b_range(*a):
    if any(isinstance(x, Num) and x.q is None for x in a):
        from . import seqs
        return seqs.SymRange(*a)
    return range(*[int(x.q) if isinstance(x, Num) else x for x in a])


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_enumerate(it, start=0):
    f = getattr(type(it), '_pyvc_enumerate', None)
    if f is not None:
        return f(it, start)
    return enumerate(it, start)


def b_ord(x):
    if is_sstr(x):
        return strs().s_ord(x)
    return ord(x)


def b_format(x, spec=''):
    return format_field(x, spec)


def b_pow(x, y, *m):
    return x ** y if not m else pow(x, y, *m)


def b_divmod(a, b):
    return (a // b, mod(a, b))


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x.__bool__()
    return bool(x)


def b_sorted(it, key=None, reverse=False):
    f = getattr(type(it), '_pyvc_sorted', None)
    if f is not None:
        return f(it, key, reverse)
    return sorted(it, key=key, reverse=reverse)


def b_list(it=()):
    f = getattr(type(it), '_pyvc_list', None)
    if f is not None:
        return f(it)
    return list(it)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, list) or hasattr(type(o), '_pyvc_list')

    def __subclasscheck__(cls, k):
        return issubclass(k, list)

    def __call__(cls, *a):
        return b_list(*a)

    def __eq__(cls, o):
        return o is list or o is List

    def __hash__(cls):
        return hash(list)


class List(metaclass=_ListMeta):
    pass


def b_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name == 'math':
        from . import symmath
        return symmath
    if level == 0 and name == 're':
        from . import symre
        return symre
    return __import__(name, globals, locals, fromlist, level)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update({
    'float': Float, 'int': Int, 'str': Str, 'isinstance': b_isinstance, 'hash': b_hash, 'round': b_round,
    'min': _minmax('min', 0), 'max': _minmax('max', 1), 'len': b_len, 'range': b_range, 'sum': b_sum, 'all': b_all, 'any': b_any,
    'enumerate': b_enumerate, 'ord': b_ord, 'format': b_format, 'pow': b_pow, 'divmod': b_divmod, 'repr': torepr,
    'sorted': b_sorted, '__import__': b_import, 'list': List, 'type': Type,
})


# ------------------------------------------------------------------ loops
class PlainLoop(object):
    __slots__ = ('it',)
    active = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def step(self, loc):
        return False


_TRUE = PlainLoop(None)


def raising(cls, args):
    """exception about to be raised: where its message cannot be spelt out, it is left out"""
    try:
        a = args()
    except sym.Opaque:
        sym.ctx().note('writing the message of an exception raises no other exception and changes nothing (where it lists the elements of a list of any length)')
        a = ('(message left out)',)
    return cls(*a)


def loop(lid, it, names):
    c = sym.CTX
    if c is not None and hasattr(type(it), '_pyvc_spec'):
        from . import loops
        return loops.begin(c, it._pyvc_spec, lid, it, names)
    if c is not None and c.loops:
        spec = c.loops.get(lid)
        if isinstance(spec, list):      # one contract per execution of the loop, in order
            spec = spec.pop(0) if spec else None
        if spec is not None and spec.applies(c, it):
            from . import loops
            return loops.begin(c, spec, lid, it, names)
    if it is None:
        return _TRUE
    return PlainLoop(it)
