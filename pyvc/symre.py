"""Model of the `re` module: real regular expressions on concrete text, symbolic matching on SStr"""
import re as _re
from . import rt

IGNORECASE = I = _re.IGNORECASE
MULTILINE = M = _re.MULTILINE
DOTALL = S = _re.DOTALL
VERBOSE = X = _re.VERBOSE
ASCII = A = _re.ASCII
error = _re.error
escape = _re.escape


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.re = _re.compile(pattern, flags)
        self.pattern, self.flags = self.re.pattern, self.re.flags
        self.groupindex, self.groups = self.re.groupindex, self.re.groups

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _go(self, how, s, *a):
        if rt.is_sstr(s) or any(rt.is_sstr(x) for x in a):
            from . import strre
            return getattr(strre, how)(self, s, *a)
        return getattr(self.re, how)(s, *a)

    def search(self, s, *a):
        return self._go('search', s, *a)

    def match(self, s, *a):
        return self._go('match', s, *a)

    def fullmatch(self, s, *a):
        return self._go('fullmatch', s, *a)

    def finditer(self, s, *a):
        return self._go('finditer', s, *a)

    def findall(self, s, *a):
        return self._go('findall', s, *a)

    def split(self, s, *a):
        return self._go('split', s, *a)

    def sub(self, repl, s, count=0):
        if rt.is_sstr(s):
            from . import strre
            return strre.sub(self, repl, s, count)
        return self.re.sub(repl, s, count)


def compile(pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)
