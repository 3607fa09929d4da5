"""Regular expressions on symbolic text: ordered (backtracking-equivalent) simulation of the pattern's automaton over cells.

The state after some text is the list of live threads in order of preference, each with its recorded group positions,
plus the best match found so far; this is exactly what a backtracking matcher would try, in its order.  A run of n >= 1
characters the pattern cannot tell apart is crossed by iterating the step until the list repeats (group positions being
constant, or at constant distance from the current position); fewer characters than that are separate cases.
"""
import re as _re
try:
    import re._parser as sre_parse
    import re._constants as K
except ImportError:
    import sre_parse
    import sre_constants as K
from . import sym
from .sym import Unsupported
from . import strs
from .strs import Ch, Cl, Rn, Fx, Lz, ASCII, SText, flat, mk

SPACE = frozenset(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f')
DIGIT = frozenset('0123456789')
WORD = frozenset(c for c in ASCII if c.isalnum() or c == '_')
PROGS = {}


AGAIN = object()
OPEN = ('open', 'open')
UNKNOWN = 'unknown' # position not known, and not needed
POISON = 'inside'      # position somewhere inside a cell


class Prog(object):
    def __init__(self, pattern, flags, groups):
        self.code = []      # instructions
        self.uniform = {}   # (instruction, characters) -> all or none of them match
        self.nsave = 2 * (groups + 1)


def _cat(cat):
    return {K.CATEGORY_DIGIT: DIGIT, K.CATEGORY_NOT_DIGIT: ASCII - DIGIT, K.CATEGORY_SPACE: SPACE, K.CATEGORY_NOT_SPACE: ASCII - SPACE,
            K.CATEGORY_WORD: WORD, K.CATEGORY_NOT_WORD: ASCII - WORD}[cat]


def compile_prog(pat):
    key = (pat.pattern, pat.flags)
    if key in PROGS:
        return PROGS[key]
    tree = sre_parse.parse(pat.pattern, pat.flags & ~_re.UNICODE if False else pat.flags & (_re.I | _re.M | _re.S | _re.X | _re.A))
    p = Prog(pat.pattern, pat.flags, tree.state.groups - 1)
    flags = tree.state.flags | pat.flags
    code = p.code

    def emit(*ins):
        code.append(list(ins))
        return len(code) - 1

    def fold(s):
        if flags & _re.I:
            return frozenset(c for c in ASCII if c in s or c.swapcase() in s)
        return frozenset(s) & ASCII

    def seq(items):
        for op, av in items:
            one(op, av)

    def one(op, av):
        if op is K.LITERAL:
            emit('char', fold(frozenset([chr(av)])))
        elif op is K.NOT_LITERAL:
            emit('char', ASCII - fold(frozenset([chr(av)])))
        elif op is K.ANY:
            emit('char', ASCII if flags & _re.S else ASCII - frozenset('\n'))
        elif op is K.IN:
            neg = False
            s = set()
            for o, a in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    s.add(chr(a))
                elif o is K.RANGE:
                    s |= set(chr(i) for i in range(a[0], min(a[1], 127) + 1))
                elif o is K.CATEGORY:
                    s |= _cat(a)
                else:
                    raise Unsupported("regex set item %s" % o)
            s = fold(frozenset(s))
            emit('char', ASCII - s if neg else s)
        elif op is K.BRANCH:
            alts = av[1]
            ends = []
            for i, a in enumerate(alts):
                if i < len(alts) - 1:
                    s = emit('split', None, None)
                    code[s][1] = len(code)
                    seq(a)
                    ends.append(emit('jmp', None))
                    code[s][2] = len(code)
                else:
                    seq(a)
            for e in ends:
                code[e][1] = len(code)
        elif op is K.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported("regex inline flags")
            if g is not None:
                emit('save', 2 * g)
            seq(sub)
            if g is not None:
                emit('save', 2 * g + 1)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is K.MAX_REPEAT
            if lo > 20 or (hi is not K.MAXREPEAT and hi > 20):
                raise Unsupported("regex count")
            for _ in range(lo):
                seq(sub)
            if hi is K.MAXREPEAT:
                s = emit('split', None, None)
                body = len(code)
                seq(sub)
                emit('jmp', s)
                code[s][1:] = [body, len(code)] if greedy else [len(code), body]
            else:
                splits = []
                for _ in range(hi - lo):
                    s = emit('split', None, None)
                    splits.append((s, len(code)))
                    seq(sub)
                for s, b in splits:
                    code[s][1:] = [b, len(code)] if greedy else [len(code), b]
        elif op is K.AT:
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and not (flags & _re.M and av is K.AT_BEGINNING):
                emit('bos')
            elif av is K.AT_BEGINNING:
                emit('bol')
            elif av is K.AT_END and not flags & _re.M:
                emit('eos')
            elif av is K.AT_END:
                emit('eol')
            elif av is K.AT_END_STRING:
                emit('eot')
            else:
                raise Unsupported("regex assertion %s" % av)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            if d != 1:
                raise Unsupported("regex look-behind")
            i = emit('look', op is K.ASSERT_NOT, None, None)
            code[i][2] = len(code)
            seq(sub)
            emit('match')
            code[i][3] = len(code)
        else:
            raise Unsupported("regex operator %s" % op)

    p.anchored = 0
    emit('save', 0)
    seq(tree)
    emit('save', 1)
    emit('match')
    # search: try every start, earliest first
    p.search = len(code)
    s = emit('split', 0, None)
    code[s][2] = len(code)
    emit('char', ASCII)
    emit('jmp', s)
    i = 1
    while code[i][0] == 'save':
        i += 1
    if code[i][0] == 'bos':     # can only match at the beginning
        p.search = p.anchored
    PROGS[key] = p
    return p


class Sim(object):
    def __init__(self, prog, cells):
        self.prog, self.cells = prog, cells

    # positions: (cell index, k): k >= 0 characters from the cell's start, k < 0 from its end (only in runs); (i, 0) is a boundary
    def peek(self, i):
        """the cell at boundary i (None: end of text); arbitrary rests are decided here"""
        while True:
            if i >= len(self.cells):
                return None
            x = self.cells[i]
            if x.expanded is not None:
                self.cells[i:i + 1] = flat([x])
                continue
            if isinstance(x, Lz):
                strs.expand(x)
                continue
            return x

    def closure(self, pcs, pos, interior, full=False):
        """epsilon closure in order -> (list of (pc of char instr, caps), match caps or None)"""
        code = self.prog.code
        out, seen = [], set()
        found = [None]

        def go(pc, caps):
            # iterative depth-first, in order
            stack = [(pc, caps)]
            while stack:
                pc, caps = stack.pop()
                if pc in seen or found[0] is not None:
                    continue
                seen.add(pc)
                ins = code[pc]
                op = ins[0]
                if op == 'char':
                    out.append((pc, caps))
                elif op == 'match':
                    if full and not self.at_end(pos, interior):
                        continue
                    found[0] = caps
                    return
                elif op == 'jmp':
                    stack.append((ins[1], caps))
                elif op == 'split':
                    stack.append((ins[2], caps))
                    stack.append((ins[1], caps))
                elif op == 'save':
                    c2 = list(caps)
                    c2[ins[1]] = pos
                    stack.append((pc + 1, tuple(c2)))
                elif op == 'look':
                    r = self.lookahead(ins[2], pos, interior)
                    if r != ins[1]:
                        stack.append((ins[3], caps))
                elif self.holds(op, pos, interior):
                    stack.append((pc + 1, caps))
        for pc, caps in pcs:
            go(pc, caps)
            if found[0] is not None:
                break
        return out, found[0]

    def at_end(self, pos, interior):
        return not interior and self.peek(pos[0]) is None

    def holds(self, op, pos, interior):
        if op == 'bos':
            return not interior and pos == (0, 0)
        if op == 'eot':
            return self.at_end(pos, interior)
        if op == 'eos':
            if interior:
                return False
            x = self.peek(pos[0])
            if x is None:
                return True
            if isinstance(x, Fx):
                return False
            if not strs.inset(x, frozenset('\n')):
                return False
            if isinstance(x, Rn):
                raise Unsupported("run of newlines")
            return self.peek(pos[0] + 1) is None
        raise Unsupported("regex assertion " + op)

    def lookahead(self, start, pos, interior):
        i, k = pos
        r = self.simulate([(start, (None,) * self.prog.nsave)], i, interior and pos or None, False, True)
        return r is not None

    # ---- crossing cells
    def sets(self, threads):
        return [self.prog.code[pc][1] for pc, _ in threads]

    def groups(self, chars, sets):
        g = {}
        for ch in chars:
            g.setdefault(tuple(ch in s for s in sets), []).append(ch)
        return list(g.values())

    def advance(self, threads, sample):
        """threads whose set holds the character, moved on"""
        code = self.prog.code
        return [(pc + 1, caps) for pc, caps in threads if sample in code[pc][1]]

    probing = False     # decide nothing
    strict = False      # every group is needed

    def simulate(self, seeds, i, inside=None, full=False, test=False):
        """ordered simulation from boundary i (or inside the run at i) -> captures of the preferred match, or None.

        Where a cell stands for several texts the pattern tells apart (notations of a number, characters of a run), all resulting
        states are carried along; usually they meet again.  If they do not, the cell is decided (case split) and the search restarts.
        test: only whether there is a match"""
        for _ in range(200):
            r = self._simulate(seeds, i, inside, full, test)
            if r is not AGAIN:
                return r
        raise Unsupported("regex does not settle")

    def _simulate(self, seeds, i, inside, full, test):
        pos = inside or (i, 0)
        start = i
        threads, best = self.closure(seeds, pos, inside is not None, full)
        S = [(threads, best, ())]
        guessed = []
        first = inside is not None
        while any(t for t, b, g in S):
            x = self.peek(i)
            if x is None:
                break
            if isinstance(x, Fx):
                outs = []
                for t, b, g in S:
                    r = self.cross_number(x, t, i, full)
                    outs.append(r)
                if any(r is None for r in outs):
                    strs.expand(x)
                    continue
                S = self.merge(x, S, outs, guessed)
            elif isinstance(x, Ch):
                if ord(x.c) > 127:
                    raise Unsupported("non-ASCII text")
                S = self.merge(x, S, [[self.closure(self.advance(t, x.c), (i + 1, 0), False, full)] for t, b, g in S], guessed)
            elif isinstance(x, Cl):
                gs = self.groups(x.chars, [z for t, b, g in S for z in self.sets(t)])
                if len(gs) > 1:
                    r = None
                    if len(gs) <= 12 and not getattr(x, 'nomix', False):
                        r = [[self.closure(self.advance(t, min(chs)), (i + 1, 0), False, full) for chs in gs] for t, b, g in S]
                        S2 = self.merge(x, S, r, list(guessed))
                        if len(S2) > len(S) and not self.dead(S2):
                            r = None
                    if r is None:
                        if self.probing:
                            raise Split()
                        x.refine(sym.ctx().pick(gs))
                        continue
                    S = self.merge(x, S, r, guessed)
                else:
                    S = self.merge(x, S, [[self.closure(self.advance(t, min(x.chars)), (i + 1, 0), False, full)] for t, b, g in S], guessed)
            else:
                outs = []
                for t, b, g in S:
                    outs.append(self.cross_run(x, t, i, full, pos if first else (i, 0)))
                    if x.expanded is not None:
                        break
                if x.expanded is not None:
                    if first and inside[1]:
                        raise Unsupported("look-ahead inside a run")
                    # part of the run was decided: cross its pieces instead
                    continue
                S = self.merge(x, S, outs, guessed)
            first = False
            i += 1
        bests = []
        for t, b, g in S:
            if b not in bests:
                bests.append(b)
        if test and all((b is None) == (bests[0] is None) for b in bests):
            return bests[0]
        if not self.strict and all(b is not None for b in bests):
            # groups nobody may ever ask for can stay open
            ends = set(b[:2] for b in bests)
            if len(ends) == 1 and not any(p[1] == POISON for p in bests[0][:2]):
                b = tuple(ps[0] if all(p == ps[0] for p in ps) and (ps[0] is None or ps[0][1] != POISON) else OPEN for ps in zip(*bests))
                return b
        if len(bests) == 1:
            b = bests[0]
            bad = [p for p in b or () if p is not None and p[1] == POISON]
            if not bad:
                return b
            x = self.cells[bad[0][0]]
        else:
            x = None
            for k, y in enumerate(guessed):
                if len(set(g[k] if k < len(g) else None for t, b, g in S)) > 1:
                    x = y
                    break
            if x is None:
                x = guessed[-1]
        # decide x and look again
        if self.probing:
            raise Split()
        if isinstance(x, Rn) and sym.ctx().opts.get('abstract') and not any(isinstance(y, Fx) for y in guessed):
            # which outcome the run leads to stays open
            sym.ctx().imprecise = True
            by = {}
            for b in bests:
                by.setdefault(None if b is None else b[0], []).append(b)
            return sym.ctx().pick([None if k is None else tuple(ps[0] if all(p == ps[0] for p in ps) else UNKNOWN for ps in zip(*bs)) for k, bs in by.items()])
        if isinstance(x, Fx):
            strs.expand(x)
        else:
            x.nomix = True
        return AGAIN

    def dead(self, S):
        return False

    def merge(self, x, S, outs, guessed):
        """states after a cell: equal ones joined"""
        many = any(len(o) > 1 for o in outs)
        if many:
            guessed.append(x)
        new = {}
        order = []
        for (t0, b0, g), o in zip(S, outs):
            for k, (t, b) in enumerate(o):
                if b is None:
                    b = b0
                key = (tuple(t), b)
                g2 = g + ((k,) if many else ())
                if key in new:
                    old = new[key]
                    new[key] = tuple(p if p == q else None for p, q in zip(old, g2))
                else:
                    new[key] = g2
                    order.append(key)
        if len(order) > 300:
            raise Unsupported("regex: too many states")
        return [(list(t), b, new[(t, b)]) for t, b in order]

    def cross_mixed(self, x, threads, i, full, start):
        """cross a run whose characters the pattern tells apart -> list of states, or None"""
        BASE = 1000000

        def norm(cap):
            if cap is None or cap[0] != i:
                return cap
            if cap[1] == POISON or (cap[1] == 0 and start == (i, 0)):
                return cap
            if cap[1] < BASE - 2 or cap[1] > BASE:
                return (i, POISON)
            return cap

        def shift(cap):
            if cap is None or cap[0] != i or cap[1] == POISON or cap[1] == 0:
                return cap
            return (i, cap[1] - 1)

        def each(f, t, b):
            return (tuple((pc, tuple(f(z) for z in caps)) for pc, caps in t), None if b is None else tuple(f(z) for z in b))
        init = each(lambda cap: (i, POISON) if cap is not None and cap[0] == i and cap[1] != 0 or cap == (i, 0) and start != (i, 0) else cap, threads, None)
        seen = {init}
        todo = [init]
        outs = []
        while todo:
            t, b = todo.pop()
            for chs in self.groups(x.chars, self.sets(t)):
                ch = min(chs)
                adv = self.advance(t, ch)
                # the last character
                t2, b2 = self.closure(adv, (i + 1, 0), False, full)
                o = each(lambda cap: cap if cap is None or cap[0] != i or cap[1] == POISON or cap[1] == 0 else (i, cap[1] - BASE - 1), t2, b2 if b2 is not None else b)
                o = each(lambda cap: cap if cap is None or cap[0] != i or cap[1] == POISON or cap[1] <= 0 else (i, POISON), o[0], o[1])
                if o not in outs:
                    outs.append(o)
                # any other one
                t3, b3 = self.closure(adv, (i, BASE + 1), True, full)
                s3 = each(lambda cap: norm(shift(cap)), t3, b3 if b3 is not None else b)
                if s3 not in seen:
                    if len(seen) > 60:
                        return None
                    seen.add(s3)
                    todo.append(s3)
        if isinstance(x.n, int) and x.n == 1:
            return None
        return [(list(t), b) for t, b in outs]

    def cross_run(self, x, threads, i, full, start):
        if not self.uniform_ok(x, threads):
            return self.other(x, threads, i, full, start)
        ch = min(x.chars)
        if start != (i, 0):
            base = 1000     # somewhere inside: only stable outcomes are usable
        else:
            base = 0
        # S_0: before the first character; S_j: after j characters, inside the run
        states = [(threads, None)]
        cur = threads
        J = 2 * len(self.prog.code) + 4 if False else None
        limit = 200
        j = 0
        j0 = None
        while j < limit:
            j += 1
            t, b = self.closure(self.advance(cur, ch), (i, base + j), True, full)
            if not self.uniform_ok(x, t):
                return self.other(x, threads, i, full, start)
            states.append((t, b))
            cur = t
            need = 2 * max(1, len(t)) + 3
            k = self.stable_from(states, i, base)
            if k is not None and len(states) - k >= need:
                j0 = k
                break
        if j0 is None:
            raise Unsupported("regex over an unbounded run does not settle")
        c = sym.ctx()
        n = x.n
        if isinstance(n, int):
            m = n - 1
            case = m if m < j0 else j0
        elif j0 == 0 or base:
            if base and j0 > 0:
                # position inside an unbounded run: earlier states are as good as the stable one only if they agree
                return self.other(x, threads, i, full, start)
            case, m = 0, None
        else:
            case, m = j0, None
            for k in range(j0):
                if bool(c.eq(n, k + 1)):
                    case = m = k
                    break
        if m is not None and case < j0:
            t, caps_at = states[case][0], case
            b = None
            for s in states[1:case + 1]:
                if s[1] is not None:
                    b = s[1]
            fix = lambda cap: cap if cap is None or cap[0] != i or cap[1] == 0 else ((i, cap[1]) if cap[1] <= case else cap)
            t2, b2 = self.closure(self.advance([(pc, caps) for pc, caps in t], ch), (i + 1, 0), False, full)
            # positions inside the run are exact numbers here
            out = [(pc, caps) for pc, caps in t2]
            return [(out, (b2 if b2 is not None else b))]
        # stable: rewrite positions to constants from the start or from the end
        last = len(states) - 1
        prev = last - 1

        def conv(cap_last, cap_prev):
            if cap_last is None or cap_last[0] != i:
                return cap_last
            a, p = cap_last[1] - base, cap_prev[1] - base
            if a == p:
                return (i, a) if not base else cap_last
            if a == p + 1:
                d = last - a        # distance behind the current position
                return (i, -(d + 1))        # one character is still to come
            raise Unsupported("regex position in a run")
        t = []
        for (pc, caps), (_, pcaps) in zip(states[last][0], states[prev][0]):
            t.append((pc, tuple(conv(a, p) for a, p in zip(caps, pcaps))))
        b = None
        if states[last][1] is not None:
            if states[prev][1] is None:
                raise Unsupported("regex match inside a run")
            b = tuple(conv(a, p) for a, p in zip(states[last][1], states[prev][1]))
        else:
            # a match found earlier and not replaced since
            for s in states[1:]:
                if s[1] is not None:
                    b = s[1]
        t2, b2 = self.closure(self.advance(t, ch), (i + 1, 0), False, full)
        return [(t2, (b2 if b2 is not None else b))]

    def other(self, x, threads, i, full, start):
        r = None
        if not getattr(x, 'nomix', False):
            r = self.cross_mixed(x, threads, i, full, start)
        if r is None:
            if start != (i, 0):
                raise Unsupported("look-ahead inside a run")
            self.cross_split(x)
            return []
        return r

    def stable_from(self, states, i, base):
        """smallest k such that the states from k on repeat, positions constant or moving along"""
        last = len(states) - 1
        if last < 2:
            return None

        def form(k):
            t, b = states[k]
            return ([pc for pc, _ in t], b is not None)
        k = last
        f = form(last)
        while k > 0 and form(k - 1)[0] == f[0] and (form(k - 1)[1] == f[1] or k - 1 == 0):
            k -= 1
        # positions
        while k < last - 1:
            ok = True
            for idx in range(len(f[0]) + (1 if f[1] else 0)):
                seqs = []
                for s in range(k, last + 1):
                    t, b = states[s]
                    caps = t[idx][1] if idx < len(t) else b
                    if caps is None:
                        if s == 0:
                            continue        # no match is recorded before the run
                        ok = False
                        break
                    seqs.append((s, caps))
                if not ok:
                    break
                for slot in range(self.prog.nsave):
                    vals = [(s, caps[slot]) for s, caps in seqs]
                    if all(v == vals[0][1] for _, v in vals):
                        continue
                    if all(v is not None and v[0] == i and (v[1] - base) - s == (vals[-1][1][1] - base) - vals[-1][0] for s, v in vals):
                        continue
                    ok = False
                    break
                if not ok:
                    break
            if ok:
                return k
            k += 1
        return None

    def uniform_ok(self, x, threads):
        code, chars = self.prog.code, x.chars
        for pc, _ in threads:
            k = (pc, chars)
            r = self.prog.uniform.get(k)
            if r is None:
                z = code[pc][1]
                n = sum(1 for ch in chars if ch in z)
                r = self.prog.uniform[k] = n == 0 or n == len(chars)
            if not r:
                return False
        return True

    def cross_split(self, x):
        """the pattern tells the characters of the run apart: take the first one off"""
        h, t = strs.split_run(x)
        x.expanded = h + t
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 6:
            raise Unsupported("regex splits a run again and again")

    def cross_number(self, x, threads, i, full):
        """states behind a number, over all its notations; None: needs a decision"""
        res = []
        # what follows decides boundary assertions
        built = x.__dict__.setdefault('probes', {})
        for shape in x.shapes():
            if shape not in built:
                built[shape] = x.build(shape, False)
            cells = self.cells[:i] + built[shape] + self.cells[i + 1:]
            n = len(cells) - len(self.cells) + 1
            sub = Probe(self.prog, cells, i, i + n)

            def conv(cap):
                if cap is None or cap[0] < i or cap == (i, 0):
                    return cap
                if cap[0] == i + n and cap[1] == 0:
                    return (i + 1, 0)
                return (i, POISON)
            try:
                for t, b in sub.run_over(threads, i, n, full):
                    o = ([(pc, tuple(conv(z) for z in caps)) for pc, caps in t], None if b is None else tuple(conv(z) for z in b))
                    if o not in res:
                        res.append(o)
            except Split:
                return None
        return res


class Split(Exception):
    pass


class Probe(Sim):
    """simulation over the cells of one possible notation; must not decide anything"""
    probing = True

    def __init__(self, prog, cells, lo, hi):
        Sim.__init__(self, prog, cells)
        self.lo, self.hi = lo, hi

    def peek(self, i):
        if i < len(self.cells):
            x = self.cells[i]
            if i >= self.hi and (isinstance(x, (Lz, Fx)) or x.expanded is not None):
                raise Split()
        if i >= len(self.cells):
            return None
        return self.cells[i]

    def cross_run(self, x, threads, i, full, start):
        # (look-ahead from inside the number)
        if not self.uniform_ok(x, threads):
            raise Split()
        return self.digits(x, threads, i, full)

    def cross_number(self, x, threads, i, full):
        raise Split()

    def run_over(self, threads, i, n, full):
        S = [(threads, None)]
        for k in range(n):
            x = self.cells[i + k]
            new = []
            for threads, b0 in S:
                if isinstance(x, Ch):
                    outs = [self.closure(self.advance(threads, x.c), (i + k + 1, 0), False, full)]
                elif isinstance(x, Cl):
                    if not self.uniform_ok(x, threads):
                        raise Split()
                    outs = [self.closure(self.advance(threads, min(x.chars)), (i + k + 1, 0), False, full)]
                else:
                    if not self.uniform_ok(x, threads):
                        raise Split()
                    outs = self.digits(x, threads, i + k, full)
                for t, b in outs:
                    o = (t, b if b is not None else b0)
                    if o not in new:
                        new.append(o)
            S = new
        return S

    def digits(self, x, threads, i, full):
        # number of digits open: go on until the states repeat
        ch = min(x.chars)

        def conv(cap):
            if cap is None or cap[0] != i or cap[1] == 0:
                return cap
            return (i, POISON)

        def norm(t, b):
            return ([(pc, tuple(conv(z) for z in caps)) for pc, caps in t], None if b is None else tuple(conv(z) for z in b))
        outs = []
        cur, bst = threads, None
        last = None
        for j in range(1, 40):
            adv = self.advance(cur, ch)
            # this digit is the last one
            t, b = self.closure(adv, (i + 1, 0), False, full)
            o = norm(t, b if b is not None else bst)
            if o not in outs:
                outs.append(o)
            # it is not
            t, b = self.closure(adv, (i, j), True, full)
            if not self.uniform_ok(x, t):
                raise Split()
            if b is not None:
                bst = b
            k = norm(t, bst)
            if k == last:
                return outs
            last = k
            cur = t
        raise Split()

    def holds(self, op, pos, interior):
        return Sim.holds(self, op, pos, interior)


class Match(object):
    def __init__(self, pat, text, cells, caps, again=None):
        self.re, self.string, self._cells, self._raw, self._again = pat, text, cells, caps, again
        self._poison = {}

    @property
    def _caps(self):
        return self._raw

    def _need(self, g, slots=(0, 1)):
        """the positions of group g are asked for"""
        asked = [self._raw[2 * g + k] for k in slots]
        if UNKNOWN in asked:
            raise Unsupported("position of a match that was abstracted")
        if OPEN in asked:
            self._cells, self._raw = self._again()
            self._again = None

    def _g(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def _offset(self, pos, slot):
        i, k = pos
        n = strs.total(self._cells[:i])
        if k == POISON:
            # somewhere in the run
            p = self._poison.get(slot)
            if p is None:
                c = sym.ctx()
                p = self._poison[slot] = c.fresh('inside', True)
                c.assume(c.le(1, p))
                c.assume(c.lt(p, self._cells[i].length()))
            n = n + p
        elif k > 0:
            n = n + k
        elif k < 0:
            # (a place within the run)
            l = self._cells[i].length()
            if not isinstance(l, int):
                sym.ctx().assume(sym.ctx().le(0, l + k))
            n = n + l + k
        return n

    def start(self, g=0):
        self._need(self._g(g), (0,))
        p = self._caps[2 * self._g(g)]
        return -1 if p is None else self._offset(p, 2 * self._g(g))

    def end(self, g=0):
        self._need(self._g(g), (1,))
        p = self._caps[2 * self._g(g) + 1]
        return -1 if p is None else self._offset(p, 2 * self._g(g) + 1)

    def span(self, g=0):
        return (self.start(g), self.end(g))

    def group(self, *gs):
        if len(gs) > 1:
            return tuple(self.group(g) for g in gs)
        g = self._g(gs[0] if gs else 0)
        self._need(g)
        a, b = self._caps[2 * g], self._caps[2 * g + 1]
        if a is None or b is None:
            return None
        return mk(between(self._cells, a, b))

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        for i in range(self.re.groups + 1):
            self._need(i)
        return tuple(self.group(i) if self._caps[2 * i + 1] is not None else default for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        self.groups()
        return {k: (self.group(k) if self._caps[2 * v + 1] is not None else default) for k, v in self.re.groupindex.items()}

    @property
    def lastindex(self):
        raise Unsupported("match.lastindex")

    def __bool__(self):
        return True


def between(cells, a, b):
    """cells between two positions"""
    (i, k), (j, l) = a, b
    if POISON in (k, l):
        raise Unsupported("text matched up to a place inside a run")
    if k == 0 and l == 0:
        return list(cells[i:j])
    if i == j:
        return part(cells[i], k, l) if l != k else []
    out = []
    if k:
        out += part(cells[i], k, None)
    else:
        out.append(cells[i])
    out += cells[i + 1:j]
    if l:
        out += part(cells[j], 0, l)
    return out


def part(x, k, l):
    """characters k..l of a run"""
    c = sym.ctx()
    if k >= 0 and (l is None or l > 0):
        # counted from the start: take the run apart
        j = 0
        while j < (k if l is None else l):
            cs = flat([x])
            if isinstance(cs[j], Rn):
                h, t = strs.split_run(cs[j])
                cs[j].expanded = h + t
                continue
            j += 1
        return flat([x])[k:l]
    n = x.n if l is None else (l if l > 0 else x.n + l)
    n = n - k if k >= 0 else (-k if l is None else l - k)
    if isinstance(n, int) and n <= 0:
        return []
    if not isinstance(n, int):
        d = strs.diff(n, 0)
        if isinstance(d, int):
            n = d
            if n <= 0:
                return []
        else:
            if c.sure(c.le(n, 0)):
                return []
    if isinstance(n, int):
        return [Cl(x.chars) for _ in range(n)]
    return [Rn(x.chars, n)]


def _start(text, pos):
    """cells, index of the boundary at pos"""
    if isinstance(pos, int) and pos == 0:
        return text.cells(), 0
    before, after = text.boundary(pos)
    return before + after, len(before)


def _run(pat, text, pos, entry, full=False):
    prog = compile_prog(pat)
    def go(strict):
        cells, i = _start(text, pos)
        sim = Sim(prog, cells)
        sim.strict = strict
        return sim.cells, sim.simulate([(entry(prog), (None,) * prog.nsave)], i, None, full)
    cells, caps = go(False)
    if caps is None:
        return None
    return Match(pat, text, cells, caps, lambda: go(True))


def search(pat, text, pos=0):
    return _run(pat, text, pos, lambda p: p.search)


def match(pat, text, pos=0):
    return _run(pat, text, pos, lambda p: p.anchored)


def fullmatch(pat, text, pos=0):
    return _run(pat, text, pos, lambda p: p.anchored, True)


def finditer(pat, text):
    pos = 0
    while True:
        m = search(pat, text, pos)
        if m is None:
            return
        a, b = m.span()
        d = strs.diff(b, a)
        if isinstance(d, int) and d == 0:
            raise Unsupported("empty regex matches")
        yield m
        pos = b


def findall(pat, text):
    return [m.group(0) if not pat.groups else (m.group(1) if pat.groups == 1 else m.groups()) for m in finditer(pat, text)]


def split(pat, text, maxsplit=0):
    out, last = [], 0
    for m in finditer(pat, text):
        out.append(text[last:m.start()])
        last = m.end()
    out.append(text[last:])
    return out


def sub(pat, repl, text, count=0):
    prog = compile_prog(pat)
    if isinstance(repl, str) and '\\' in repl:
        raise Unsupported("regex template")
    fn = repl if callable(repl) else (lambda m: repl)
    # one character at a time
    code = prog.code
    if not count and len(code) >= 4 and code[1][0] == 'char' and code[2][0] == 'save' and isinstance(repl, str):
        s = code[1][1]
        out = []
        i = 0
        cells = text.cells()
        while i < len(cells):
            x = cells[i]
            if x.expanded is not None or isinstance(x, Lz):
                strs.expand(x)
                cells[i:i + 1] = flat([x])
                continue
            if isinstance(x, Fx):
                if not (x.chars() & s):
                    out.append(x)
                    i += 1
                    continue
                strs.expand(x)
                continue
            if isinstance(x, Rn) and x.chars & s and not x.chars <= s:
                raise Unsupported("substitution distinguishes the characters of a run")
            if strs.inset(x, s):
                if isinstance(x, Rn) and repl:
                    if len(repl) != 1:
                        raise Unsupported("substitution in a run")
                    out.append(Rn(frozenset(repl), x.n))
                else:
                    out += strs.cells_of(repl)
            else:
                out.append(x)
            i += 1
        return mk(out)
    out = []
    cells, i = text.cells(), 0
    n = 0
    guard = 0
    while True:
        sim = Sim(prog, cells)
        sim.strict = True
        caps = sim.simulate([(prog.search, (None,) * prog.nsave)], i)
        cells = sim.cells
        if caps is None or (count and n >= count):
            break
        a, b = caps[0], caps[1]
        if a == b:
            if i == 0 and len(cells) == 0:
                break
            raise Unsupported("empty regex match in a substitution")
        out += between(cells, (i, 0), a)
        out += strs.cells_of(fn(Match(pat, text, cells, caps)))
        if b[1]:
            raise Unsupported("substitution ends inside a run")
        i = b[0]
        n += 1
        guard += 1
        if guard > 200:
            raise Unsupported("too many substitutions")
    out += cells[i:]
    return mk(out)
