from pyvc.api import Spec
from .common import *
from .tables import CODES, LETTERS, row

SPEC = Spec('C07')
ob = SPEC.ob
ALL = list(CODES) + [('F', 100.0, 'GCodeFeedRate', 201, 40, '', ''), ('S', 1000.0, 'GCodeSpindleSpeed', 202, 50, '', ''), ('T', '12', 'GCodeSelectTool', 203, 60, '', ''),
                     ('N', 5, 'GCodeLineNumber', None, 0, '', '')]


def text_of(r, i=0):
    v = r[1]
    if r[0] in 'T':
        return 'T%s' % v
    return '%s%s' % (r[0], ('%d' % v) if v == int(v) else '%.1f' % v)


def conflict(rs, values=None):
    """two codes repeat the same word or share a modal group"""
    for i in range(len(rs)):
        for j in range(i):
            if rs[i][0] == rs[j][0] and rs[i][1] == rs[j][1]:
                return True
            if rs[i][3] is not None and rs[i][3] == rs[j][3]:
                return True
    return False


def accepted(c, text, **kw):
    try:
        b = c.pg.block.Block(text, **kw)
        return b
    except AssertionError:
        return None


def parse_codes(rs):
    """codes that stay codes (a word accepted as parameter by an earlier code is a parameter)"""
    out = []
    for r in rs:
        if any(r[0] in p[5] for p in out):
            continue
        out.append(r)
    return out


@ob('two codes', functions=['block:Block._assert_gcodes', 'block:Block.__init__'], covers=['rejected', 'accepted'])
def pairs(c):
    """every ordered pair of codes"""
    a, b = c.choice('a', ALL), c.choice('b', ALL)
    t = text_of(a) + ' ' + text_of(b)
    rs = parse_codes([a, b])
    bad = conflict(rs)
    ok = accepted(c, t)
    c.cover('rejected' if bad else 'accepted')
    c.check('rejected exactly when the codes conflict', (ok is None) == bad)
    if ok is not None:
        c.check('all codes are there', [(g.word.letter, g.word.value) for g in ok.gcodes] == [(r[0], r[1]) for r in rs])
    off = accepted(c, t, verify=False)
    c.check('never rejected with verification off', off is not None)


def made(c, gs):
    """a block of these codes. Concretely it is made from their text; symbolically the codes take the place of those the
    parser finds (its own contract is C02 and C04)"""
    if not c.symbolic:
        return c.pg.block.Block(' '.join(str(g) for g in gs))
    m = c.pg.block
    old = getattr(m, 'words2gcodes', None)
    if old is None:
        c.outside('codes are not found by words2gcodes')
    used = []

    def found(words):
        used.append(words)
        return gs, []
    m.words2gcodes = found
    try:
        return m.Block('N1')
    finally:
        m.words2gcodes = old
        if not used:
            c.outside('codes are not found by words2gcodes')


@ob('with parameters', functions=['block:Block._assert_gcodes'])
def params(c):
    """parameters (any values) make no difference"""
    a, b = c.choice('a', [row('G', 1), row('G', 0), row('G', 38.2), row('G', 4), row('G', 81), row('M', 66)]), c.choice('b', [row('G', 1), row('G', 2), row('G', 90), row('G', 4), row('G', 80), row('M', 3)])
    gs = []
    for i, r in enumerate((a, b)):
        g = code(c, r[0], r[1])
        for l in 'XYP':
            if l in r[5] and c.bool('has%d%s' % (i, l)):
                setattr(g, l, c.real('v%d%s' % (i, l)))
        gs.append(g)
    bad = conflict([a, b])
    try:
        made(c, gs)
        c.check('rejected exactly when the codes conflict', not bad)
    except AssertionError:
        c.check('rejected exactly when the codes conflict', bad)


@ob('settings letters', functions=['block:Block._assert_gcodes'])
def settings(c):
    """two F, S or T words always conflict (same group), whatever their values; N words repeat only with equal values"""
    l = c.choice('letter', 'FSTN')
    if l == 'T':
        v, w = c.choice('v', ['1', '01', '2']), c.choice('w', ['1', '2'])
    elif l == 'N':
        v, w = c.int('v', 0, 9), c.int('w', 0, 9)
    else:
        v, w = c.real('v'), c.real('w')
    try:
        made(c, [code(c, l, v), code(c, 'G', 1), code(c, l, w)])
        rejected = False
    except AssertionError:
        rejected = True
    if l == 'N':
        c.check('line numbers conflict exactly when equal', c.Iff(rejected, v == w))
    else:
        c.check('two settings of one kind conflict', rejected)


POOL = [('G', 1), ('G', 0), ('G', 90), ('G', 91), ('G', 20), ('G', 4), ('G', 80), ('M', 3), ('M', 8), ('M', 7), ('G', 17), ('F', 100.0), ('T', '12'), ('G', 28), ('G', 28.1), ('M', 62)]


def same(g, h):
    return g.word.letter == h.word.letter and g.word.value == h.word.value or g.modal_group is not None and g.modal_group == h.modal_group


class Remembering(set):
    """the sets the checking loop fills: before an arbitrary iteration they hold the words / the groups of the codes so far"""
    what = None

    def __contains__(self, x):
        return set.__contains__(self, x) if self.what is None else self.what.holds(self, x)

    def add(self, x):
        if self.what is None:
            set.add(self, x)
        else:
            self.added.append(x)


@ob('any number of codes', functions=['block:Block._assert_gcodes', 'block:Block.__init__'], covers=['rejected', 'accepted'], weight=2)
def any_number(c):
    """rejected only where a code conflicts with an earlier one, and accepted only where no two codes (an arbitrary pair) do"""
    if not c.symbolic:
        gs = [code(c, *c.choice('g%d' % i, POOL)) for i in range(c.int('n', 0, 12, gen=lambda r: r.choice([2, 3, 4, 6, 8])))]
        text = ' '.join(str(g) for g in gs)
        rs = [(g.word.letter, g.word.value, '', g.modal_group, 0, row(g.word.letter, g.word.value)[5] if g.word.letter in 'GM' else '', '') for g in gs]
        return c.check('rejected exactly when the codes conflict', (accepted(c, text) is None) == conflict(parse_codes(rs)))
    from pyvc.seqs import SymSeq
    from pyvc.loops import LoopSpec
    from pyvc.sym import Unsupported
    n, i, j = c.int('n', 2), c.int('i', 0), c.int('j', 1)
    c.assume(c.And(c.lt(i, j), c.lt(j, n)))

    def arbitrary(name):
        """codes matter only by word and group: the same, another of a group, another group, no group; line numbers stand for words without a group"""
        p = c.choice(name, [('G', 1), ('G', 0), ('G', 90), ('G', 4), 'N'])
        return code(c, 'N', c.int(name + '.n', 0)) if p == 'N' else code(c, *p)
    gi, gj = arbitrary('gi'), arbitrary('gj')
    count = [0]

    def element(k):
        count[0] += 1
        return arbitrary('e%d' % count[0])
    seq = SymSeq(n, element, [(i, gi), (j, gj)])
    said = []       # answers of the sets
    state = {}

    def words(g):
        return g.word

    def groups(g):
        return g.modal_group

    class Holds(object):
        def __init__(self, f):
            self.f = f

        def holds(self, the, x):
            if any(x == y for y in the.added):
                return True
            if c.sure(c.lt(i, state['k'])) and self.f(gi) is not None and self.f(gi) == x:
                return True
            if c.sure(c.lt(j, state['k'])) and self.f(gj) is not None and self.f(gj) == x:
                return True
            if c.pick([True, False]):
                said.append((self.f, x))
                return True
            return False

    class Loop(LoopSpec):
        name = 'checking the codes'
        asked = 0

        def applies(self, c, it):
            return True

        def sequence(self, c, it):
            if not isinstance(it, SymSeq):
                raise Unsupported('misfit: not a loop over the codes')
            return it.n, it.at

        def havoc(self, c, L, k):
            state['k'] = k
            self.entry = {x: L[x] for x in self.names if x in L}
            if set(v for v in L if isinstance(L[v], set)) != {'code_words', 'modal_groups'} or L['code_words'] or L['modal_groups']:
                raise Unsupported('misfit: other sets')
            for v, f in (('code_words', words), ('modal_groups', groups)):
                L[v].what, L[v].added = Holds(f), []
            return dict(self.entry)

        def inv(self, c, L, k):
            self.asked += 1
            if self.asked == 3:
                g = seq.at(state['k'])
                if any(L.get(x) is not v for x, v in self.entry.items()) or [x for x in L['code_words'].added] != [g.word] or \
                        L['modal_groups'].added != [x for x in [g.modal_group] if x is not None]:
                    raise Unsupported('misfit: the loop remembers something else')
            yield 'no conflict among the codes so far', c.Or(c.le(k, j), not same(gi, gj))
    seq.contract = Loop()
    c.pg.block.__dict__['set'] = Remembering
    try:
        made(c, seq)
        c.cover('accepted')
        c.check('accepted only where no two codes conflict', not same(gi, gj))
    except AssertionError:
        c.cover('rejected')
        g = seq.at(state['k']) if 'k' in state else None
        before = [e for x, e in ((i, gi), (j, gj)) if g is not None and c.sure(c.lt(x, state['k']))]
        c.check('rejected only where a code conflicts with an earlier one', g is not None and (
            any(same(e, g) for e in before) or any(f is words and x == g.word or f is groups and x is not None and x == g.modal_group for f, x in said)))
    finally:
        del c.pg.block.__dict__['set']




@ob('three codes', functions=['block:Block._assert_gcodes'], kind='bounded', bound='all triples over 16 representative codes; longer lines sampled up to 9 codes')
def triples(c):
    ps = [c.choice('p%d' % i, POOL) for i in range(3)]
    rs = []
    for p in ps:
        rs.append([r for r in ALL if (r[0], r[1]) == p][0])
    keep = parse_codes(rs)
    t = ' '.join(text_of(r) for r in rs)
    ok = accepted(c, t)
    c.check('rejected exactly when the codes conflict', (ok is None) == conflict(keep))
    if ok is not None:
        c.check('all codes are there', [(g.word.letter, g.word.value) for g in ok.gcodes] == [(r[0], r[1]) for r in keep])
    c.check('never rejected with verification off', accepted(c, t, verify=False) is not None)


@ob('long lines', functions=['block:Block._assert_gcodes', 'line:Line.__init__'], kind='sample')
def long(c):
    def gen(r):
        n = r.randint(0, 9)
        groups = {}
        if r.random() < 0.6:
            # mostly conflict-free lines
            pool = list(range(len(ALL)))
            r.shuffle(pool)
            out, seen = [], set()
            for i in pool:
                if ALL[i][3] is not None and ALL[i][3] in seen:
                    continue
                seen.add(ALL[i][3])
                out.append(i)
                if len(out) >= n:
                    break
            return out
        return [r.randrange(len(ALL)) for _ in range(n)]
    idx = c.obj('codes', gen)
    kind = c.choice('via', ['block', 'line'])
    rs = [ALL[i] for i in idx]
    c.assume(not any(r[0] == 'T' and any('T' in q[5] for q in rs) for r in rs))
    keep = parse_codes(rs)
    # a letter given twice to one code is another error (C04)
    given, codes = set(), []
    for i, r in enumerate(rs):
        home = [j for j in codes if r[0] in rs[j][5]]
        if home:
            c.assume((home[-1], r[0]) not in given)
            given.add((home[-1], r[0]))
        else:
            codes.append(i)
    t = ' '.join(text_of(r) for r in rs)
    try:
        b = c.pg.block.Block(t) if kind == 'block' else c.pg.line.Line(t).block
    except AssertionError:
        b = None
    c.check('rejected exactly when the codes conflict', (b is None) == conflict(keep))
    c.check('never rejected with verification off', accepted(c, t, verify=False) is not None)
