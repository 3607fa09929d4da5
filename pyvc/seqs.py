"""Ranges with symbolic bounds"""
from . import sym
from .sym import Num, PathEnd


class SymRange(object):
    """range(start, stop) with symbolic bounds; iterated by a loop contract, or unrolled up to a stated bound"""
    def __init__(self, *a):
        self.start, self.stop = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) > 2:
            raise sym.Unsupported("symbolic range with a step")

    def __iter__(self):
        c = sym.ctx()
        lim = c.opts.get('unroll', 3)
        i = self.start
        n = 0
        while True:
            if not (i < self.stop):
                return
            if n >= lim:
                c.stats.bounds.add("range unrolled up to %d iterations" % lim)
                raise PathEnd()
            yield i
            i = i + 1
            n += 1

    def _pyvc_len(self):
        c = sym.ctx()
        d = self.stop - self.start
        return d if c.sure(c.le(0, d)) else 0

    def __len__(self):
        return self._pyvc_len().__index__()


class SymSeq(object):
    """List of any length. element(k) builds an arbitrary element (one element per index); views share the elements.

    witness: (index, element) pairs fixed beforehand. inv(k): facts about the first k elements a loop over the list may
    rely on (checked, then assumed). Loops over it may change none of the caller's locals but their own targets, else they
    are outside this contract"""
    def __init__(self, n, element, witness=(), inv=None, base=None, lo=0, sort_of=None):
        self.base = self if base is None else base
        self.lo, self.n, self.sort_of = lo, n, sort_of
        if base is None:
            self.element, self.known, self.inv = element, list(witness), inv

    def at(self, k):
        c = sym.ctx()
        b = self.base
        k = self.lo + k
        for i, e in b.known:
            if i is k or c.sure(c.eq(i, k)):
                return e
        if len(b.known) > 8:
            raise sym.Unsupported('misfit: many elements of a list of any length followed one by one')
        e = b.element(k)
        b.known.append((k, e))
        return e

    def view(self, lo, n):
        return SymSeq(n, None, base=self.base, lo=lo, sort_of=self.sort_of)

    def _pyvc_len(self):
        return self.n

    def __getitem__(self, i):
        c = sym.ctx()
        if isinstance(i, slice):
            if i.step is not None:
                raise sym.Unsupported('slice with a step of a list of any length')
            a, b = (0 if i.start is None else i.start), (self.n if i.stop is None else i.stop)
            for x in (a, b):
                if not c.sure(c.le(0, x)):
                    raise sym.Unsupported('negative bound in a slice of a list of any length')
            a, b = c.min(a, self.n), c.min(b, self.n)
            return self.view(self.lo + a, c.max(0, b - a))
        if not c.sure(c.And(c.le(0, i), c.lt(i, self.n))):
            if c.sure(c.lt(i, 0)):
                raise sym.Unsupported('negative index into a list of any length')
            raise IndexError('list index out of range')
        return self.at(i)

    def _pyvc_list(self):
        return self.view(self.lo, self.n)

    __copy__ = copy = _pyvc_list

    def _pyvc_sorted(self, key=None, reverse=False):
        """(stable sorting: the language's own contract)"""
        if self.base is not self or not hasattr(self, 'sorting'):
            raise sym.Unsupported('sorting a list of any length')
        return self.sorting(key, reverse)

    def __bool__(self):
        c = sym.ctx()
        return c.sure(c.lt(0, self.n))

    def _pyvc_enumerate(self, start=0):
        return Numbered(self, start)

    contract = None

    @property
    def _pyvc_spec(self):
        return frame(self) if self.base.contract is None else self.base.contract

    def _no(self, *a, **k):
        raise sym.Opaque('list of any length used otherwise than by a loop, an index or a slice')
    __iter__ = __reversed__ = __contains__ = __len__ = __add__ = __radd__ = __iadd__ = __mul__ = __eq__ = __ne__ = _no
    __setitem__ = __delitem__ = append = extend = insert = pop = remove = clear = index = count = sort = reverse = _no
    __hash__ = None


class Numbered(object):
    def __init__(self, seq, start):
        self.seq, self.start = seq, start

    def __iter__(self):
        self.seq._no()

    @property
    def _pyvc_spec(self):
        return frame(self.seq, self.start)


def frame(seq, start=None):
    from .loops import LoopSpec

    class Frame(LoopSpec):
        name = 'loop over the list'
        asked = 0

        def applies(self, c, it):
            return True

        def sequence(self, c, it):
            return seq.n, lambda k: seq.at(k) if start is None else (k + start, seq.at(k))

        def havoc(self, c, L, k):
            self.entry = {n: L[n] for n in self.names if n in L}
            return dict(self.entry)

        def inv(self, c, L, k):
            # on entry, assumed, preserved (a loop that does not keep it is of another form: outside this contract)
            self.asked += 1
            if self.asked == 3:
                for n, v in self.entry.items():
                    if L.get(n) is not v:
                        raise sym.Unsupported('misfit: the loop changes the local %r' % n)
            cond = seq.base.inv(seq.lo + k) if seq.base.inv else True
            if self.asked == 2:
                return [('first elements', cond)]
            if not c.sure(cond):
                raise sym.Unsupported('misfit: the loop passes over the element looked for')
            return []
    return Frame()
