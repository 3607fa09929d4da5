"""Loop contracts: a loop with a specification is cut at its head.

The invariant is checked on entry, assumed for an arbitrary iteration (all locals the loop assigns are
replaced by what the specification says, or made unreadable), and checked again after the body; paths
that leave the loop (exhausted iterable, false condition, break) go on from there.
"""
import sys
from . import sym
from .sym import PathEnd, Unsupported


class Poison(object):
    """local assigned by the loop that the loop contract does not describe: may be written, not read"""
    def __init__(self, n):
        object.__setattr__(self, '_n', n)

    def _bad(self, *a, **k):
        raise Unsupported("loop contract does not describe local %r" % object.__getattribute__(self, '_n'))
    __getattr__ = __setattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = _bad
    __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __iter__ = __len__ = __getitem__ = __iadd__ = __neg__ = _bad
    __hash__ = None


class LoopSpec(object):
    """Contract of one loop.

    peel iterations are executed as they are; then the invariant is checked (entry), everything the loop changes is
    replaced by arbitrary values satisfying it (havoc + inv), and one arbitrary iteration, or the exit, is followed.
    k counts completed iterations (a number, symbolic after the cut)."""
    name = 'loop'
    peel = 0
    once = False
    exiting = False     # the values asked for are those after the loop

    def applies(self, c, it):
        """concrete ranges are executed as they are"""
        return not isinstance(it, range)

    def sequence(self, c, it):
        """(length, k -> element); default for symbolic ranges"""
        from .seqs import SymRange
        if isinstance(it, SymRange):
            return (it._pyvc_len(), lambda k: it.start + k)
        if isinstance(it, range):
            return (len(it), lambda k: it.start + k)
        raise Unsupported("loop contract %s does not fit the iterable %r" % (self.name, type(it)))

    def havoc(self, c, L, k):
        """arbitrary values for the locals the loop assigns (name -> value) and, as a side effect, for objects it changes"""
        return {}

    def inv(self, c, L, k):
        """(label, condition) pairs"""
        return ()


    def after(self, c, L):
        """further checks at the end of the arbitrary iteration"""


class CutLoop(object):
    def __init__(self, c, spec, lid, it, names):
        self.c, self.spec, self.lid, self.names = c, spec, lid, names
        self.it = it
        self.n = self.at = None
        if it is not None:
            self.n, self.at = spec.sequence(c, it)
        self.k = 0
        self.cut = False
        self.active = False
        c.stats.cuts.add(lid)

    def _check(self, L, k, when):
        for (label, cond) in self.spec.inv(self.c, L, k):
            self.c.check('%s: invariant: %s [%s]' % (self.spec.name, label, when), cond)

    def _cut(self, L, k=None):
        c = self.c
        L = dict(L)
        self.spec.names = self.names
        self._check(L, self.k, 'on entry')
        if k is None:
            k = c.fresh('k', True)
            c.assume(k >= self.k)
        new = dict(self.spec.havoc(c, L, k))
        k = new.pop('$k', k)        # the specification may split cases on k, and name it anew
        L2 = dict(L)
        for n in self.names:
            L2[n] = new[n] if n in new else Poison(n)
        for (label, cond) in self.spec.inv(c, L2, k):
            c.assume(cond)
        self.k = k
        self.L0 = L2
        self.cut = True
        self.values = tuple(L2[n] for n in self.names)

    def take(self):
        self.active = False
        return self.values

    def _after(self, L):
        L = dict(L)
        self._check(L, self.k + 1, 'preserved')
        self.spec.after(self.c, L)
        var = getattr(self.spec, 'variant', None)
        if var is not None:
            a, b = var(self.c, self.L0), var(self.c, L)
            self.c.check('%s: terminates (the variant decreases by a fixed amount and is bounded)' % self.spec.name, self.spec.decreases(self.c, a, b))
        raise PathEnd()

    # while loops
    def step(self, L):
        if self.cut:
            self._after(L)
        if self.k < self.spec.peel:
            self.k += 1
            self.started = True
            return False
        self._cut(L)
        return True

    # for loops
    def __iter__(self):
        return self

    def __next__(self):
        c = self.c
        L = sys._getframe(1).f_locals
        if self.cut:
            self._after(L)
        if self.k < self.spec.peel:
            if not c.sure(c.lt(self.k, self.n)):
                raise StopIteration
            self.k += 1
            return self.at(self.k - 1)
        if c.pick(['iterate', 'done']) == 'done':
            # (the iterations executed so far are no more than there are)
            c.assume(c.le(self.k, self.n))
            self.spec.exiting = True
            self._cut(L, self.n)
            self.active = True
            raise StopIteration
        self.spec.exiting = False
        self._cut(L)
        self.active = True
        c.assume(c.lt(self.k, self.n))
        return self.at(self.k)


def begin(c, spec, lid, it, names):
    c.loops_used.add(lid)
    return CutLoop(c, spec, lid, it, names)
