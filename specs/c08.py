"""Codes, blocks and lines printed and read back"""
from pyvc.api import Spec
from .common import *
from .tables import CODES, INT_LETTERS, TEXT_LETTERS

SPEC = Spec('C08')
ob = SPEC.ob
CODE = ['gcodes:GCode.__str__', 'words:Word.__str__', 'words:text2words', 'gcodes:words2gcodes', 'block:Block.__init__', 'block:Block.__str__']
LINE = CODE + ['line:Line.__str__', 'line:Line.__init__', 'comment:CommentBrackets.__str__', 'comment:CommentSemicolon.__str__', 'comment:split_line']
SPEC.assume('parameters follow their code and no earlier code of the line accepts them (otherwise the printed order binds them differently); the sign of a printed zero is not distinguished')


def value(c, l, name):
    if l in TEXT_LETTERS:
        return c.run(name, '0123456789')
    if l in INT_LETTERS:
        return c.int(name, 0)
    return c.real(name)


def same_value(c, label, l, a, b):
    if l in TEXT_LETTERS or l in INT_LETTERS:
        c.check(label, a == b)
    else:
        d = 5e-4 if c.symbolic else 5e-4 + 1e-9 * (1 + abs(a))
        c.check(label, c.And(c.le(a - b, d), c.le(b - a, d)))


def same_code(c, a, b, exact=False):
    c.check('same kind of code', type(a) is type(b))
    c.check('same word letter', a.word.letter == b.word.letter)
    if a.word.letter in 'GM':
        c.check('same word value', c.eq(a.word.value, b.word.value))
    else:
        same_value(c, 'same word value', a.word.letter, a.word.value, b.word.value)
    c.check('same parameters', set(a.params) == set(b.params))
    for l in sorted(a.params):
        c.check('parameter letter', b.params[l].letter == l)
        same_value(c, 'parameter value', l, a.params[l].value, b.params[l].value)


def make(c, r, letters, name=''):
    W = c.pg.words.Word
    cls = getattr(c.pg.gcodes, r[2])
    v = r[1]
    if r[0] not in 'GM':
        v = value(c, r[0], name + 'word')
    return cls(W(r[0], v), *[W(l, value(c, l, name + l)) for l in letters])


SETTERS = [('F', None, 'GCodeFeedRate', 201, 40, '', ''), ('S', None, 'GCodeSpindleSpeed', 202, 50, '', ''), ('T', None, 'GCodeSelectTool', 203, 60, '', ''), ('N', None, 'GCodeLineNumber', None, 0, '', '')]


def one_code(c, r, letters):
    g = make(c, r, letters)
    t = c.str(g)
    b = c.pg.block.Block(t)
    c.check('one code, nothing left over', len(b.gcodes) == 1 and not b.modal_params)
    same_code(c, g, b.gcodes[0])
    c.check('printed again: the same text', c.str(b.gcodes[0]) == t)
    c.check('the block prints as the code', c.str(b) == t)


@ob('one code, up to two parameters', functions=CODE)
def single(c):
    """every code, any one or two of its parameters, any values"""
    r = c.choice('code', CODES + SETTERS)
    n = c.choice('n', [k for k in (0, 1, 2) if k <= len(r[5])])
    letters = []
    for k in range(n):
        letters.append(c.choice('letter%d' % k, [l for l in r[5] if not letters or l > letters[-1]] or [None]))
    if None in letters:
        letters.remove(None)
    if c.bool('given in reverse'):
        letters.reverse()
    one_code(c, r, letters)


@ob('code edited after printing', functions=CODE + ['gcodes:GCode.__setattr__'])
def edited(c):
    """what a code printed before leaves no trace"""
    r = c.choice('code', [x for x in CODES + SETTERS if (x[0], x[1]) in (('G', 1), ('G', 2), ('G', 83), ('M', 66), ('G', 10), ('G', 4))])
    ls = [l for l in r[5] if l in 'XYPRQL'][:3]
    present = [l for l in ls if c.bool('has ' + l)]
    g = make(c, r, present)
    blk = c.pg.block.Block(c.str(g))
    c.str(blk)
    l = c.choice('letter', ls)
    v = value(c, l, 'new')
    setattr(g, l, v)
    setattr(blk.gcodes[0], l, v)
    t = c.str(g)
    b = c.pg.block.Block(t)
    c.check('one code, nothing left over', len(b.gcodes) == 1 and not b.modal_params)
    same_code(c, g, b.gcodes[0])
    same_value(c, 'new value', l, v, getattr(b.gcodes[0], l))
    c.check('the block of it prints the same', c.str(blk) == t)


@ob('one code, all parameters', functions=CODE)
def every(c):
    r = c.choice('code', [r for r in CODES if len(r[5]) > 2])
    letters = list(r[5])
    if c.bool('given in reverse'):
        letters.reverse()
    one_code(c, r, letters)


BLOCK = [('G', 1), ('G', 2), ('G', 4), ('G', 10), ('G', 33), ('G', 41), ('G', 43), ('G', 64), ('G', 76), ('G', 80), ('G', 83), ('G', 90), ('G', 96), ('G', 38.2), ('G', 59.1), ('M', 3), ('M', 6), ('M', 66), ('M', 67)]


def row_of(l, v):
    for r in CODES + SETTERS:
        if r[0] == l and r[1] == v:
            return r


def check_block(c, codes, loose):
    """block parsed from the text of the codes and the left over words"""
    W = c.pg.words.Word
    text = c.str(codes[0])
    for x in codes[1:] + loose:
        text = text + ' ' + c.str(x)
    b = c.pg.block.Block(text)
    t = c.str(b)
    b2 = c.pg.block.Block(t)
    c.check('same number of codes', len(b2.gcodes) == len(b.gcodes) == len(codes))
    for g, h, h2 in zip(codes, b.gcodes, b2.gcodes):
        same_code(c, g, h)
        same_code(c, h, h2)
    c.check('left over parameters in order', [w.letter for w in b.modal_params] == [w.letter for w in b2.modal_params] == [w.letter for w in loose])
    for w, w2, w3 in zip(loose, b.modal_params, b2.modal_params):
        same_value(c, 'left over value', w.letter, w.value, w2.value)
        same_value(c, 'left over value', w.letter, w2.value, w3.value)
    c.check('printed again: the same text', c.str(b2) == t)


def free(rs, l):
    return not any(l in r[5] for r in rs)


@ob('blocks', functions=CODE, kind='bounded', bound='two codes out of 23 representative ones with up to one parameter each (first, last, or none), up to two left over words; all values symbolic')
def blocks(c):
    rs, codes = [], []
    W = c.pg.words.Word
    n = c.choice('n', [1, 2])
    pool = [row_of(*x) for x in BLOCK] + SETTERS
    for k in range(n):
        r = c.choice('code%d' % k, [r for r in pool if not any(r is q or (r[3] is not None and r[3] == q[3]) for q in rs) and (r[0] in 'GM' or free(rs, r[0]))])
        ok = [l for l in r[5] if free(rs, l) and l not in 'GM']
        if n == 2 and len(ok) > 1:
            ok = [ok[-1]]
        p = c.choice('param%d' % k, [None] + ok[:1] + ok[1:][-1:])
        codes.append(make(c, r, [p] if p else [], 'c%d.' % k))
        rs.append(r)
    loose = [l for l in 'XR' if free(rs, l)]
    m = c.choice('left over', [0, 1, 2] if len(loose) == 2 else ([0, 1] if loose else [0]))
    loose = loose[::-1][:m] if n == 1 else loose[:m]
    check_block(c, codes, [W(l, c.real('loose.' + l)) for l in loose])


# ---------------------------------------------------------------- whole lines, sampled
def num(r):
    return r.choice(['%d' % r.randint(-99, 99), '%.3f' % r.uniform(-50, 50), '.5', '-.25', '1.', '0', '-0', '0.0004', '-0.0004', '1e0'[:1], '100', '1000', '%.6f' % r.uniform(-5, 5), '%d' % r.randint(0, 10 ** 9)])


def sample_line(r):
    rows = list(CODES)
    r.shuffle(rows)
    groups, used, out, rs = set(), set(), [], []
    for q in rows[:r.choice([0, 1, 1, 2, 3])]:
        if (q[3] is not None and q[3] in groups) or (q[0], q[1]) in used:
            continue
        groups.add(q[3])
        used.add((q[0], q[1]))
        out.append(r.choice([q[0], q[0].lower()]) + r.choice(['%s', '%s ', '0%s', '%05.1f'][:4] if q[1] < 10 else ['%s']) % q[1])
        ls = [l for l in q[5] if free(rs, l)]
        r.shuffle(ls)
        for l in ls[:r.choice([0, 1, 2, 3, 9])]:
            out.append(l + (str(r.randint(0, 99)).zfill(r.choice([1, 2])) if l in 'TLN' else num(r)))
        rs.append(q)
        if 'O' in out[-1]:
            break
    for l in 'FSTN':
        if free(rs, l) and r.random() < 0.2:
            out.append(l + (num(r) if l in 'FS' else str(r.randint(0, 20))))
    ls = [l for l in 'XYZABCIJKRPQDEHL' if free(rs, l)]
    r.shuffle(ls)
    for l in ls[:r.choice([0, 0, 0, 1, 2, 4])]:
        out.append(l + (str(r.randint(0, 99)) if l == 'L' else num(r)))
    text = r.choice(['', ' ']).join(out)
    pool = 'abcXG01 .-,:"#@!\t'
    body = ''.join(r.choice(pool + ';%') for _ in range(r.choice([0, 1, 4, 9])))
    k = r.random()
    if k < 0.35:
        text += r.choice(['', ' ']) + '(' + body + ')'
    elif k < 0.7:
        text += r.choice(['', ' ']) + ';' + body.replace('%', '')
    if r.random() < 0.2:
        text += r.choice(['', ' ']) + '%' + ''.join(r.choice(pool) for _ in range(r.randint(0, 6))).strip() + r.choice(['', '%'])
    return text + r.choice(['', '', '\n', '\r\n'])


@ob('lines', functions=LINE, kind='sample', weight=3, covers=['comment', 'macro', 'codes', 'left over'])
def lines(c):
    text = c.obj('line', sample_line)
    a = c.pg.line.Line(text)
    t = str(a)
    b = c.pg.line.Line(t)
    c.check('same number of codes', len(a.block.gcodes) == len(b.block.gcodes))
    for g, h in zip(a.block.gcodes, b.block.gcodes):
        c.cover('codes')
        same_code(c, g, h)
        c.check('code alone prints the same again', str(c.pg.block.Block(str(g)).gcodes[0]) == str(g))
    c.check('left over parameters in order', [w.letter for w in a.block.modal_params] == [w.letter for w in b.block.modal_params])
    for w, w2 in zip(a.block.modal_params, b.block.modal_params):
        c.cover('left over')
        same_value(c, 'left over value', w.letter, w.value, w2.value)
    c.check('comment kept', (a.comment is None) == (b.comment is None))
    if a.comment is not None:
        c.cover('comment')
        c.check('comment text', a.comment.text == b.comment.text)
        c.check('comment kind', type(a.comment) is type(b.comment))
    c.check('macro kept', (a.macro is None) == (b.macro is None))
    if a.macro is not None:
        c.cover('macro')
        c.check('macro text', a.macro.strip() == b.macro.strip())
    c.check('printed again: the same text', str(b) == t)


@ob('comments', functions=LINE, kind='sample')
def comments(c):
    """comments as a user builds them"""
    text = c.obj('text', lambda r: ''.join(r.choice('abcXG01 .-,;%\t') for _ in range(r.randint(0, 12))))
    kind = c.choice('kind', ['CommentBrackets', 'CommentSemicolon'])
    if kind == 'CommentSemicolon':
        text = text.replace('%', '').strip()
    m = getattr(c.pg.comment, kind)(text)
    code = c.choice('code', ['', 'G0 X1 ', 'X1 Y2 '])
    ln = c.pg.line.Line(code + str(m))
    c.check('comment comes back', ln.comment is not None and ln.comment.text == text and type(ln.comment) is type(m))
    c.check('no words from the comment', ''.join(str(ln.block).split()) == ''.join(str(c.pg.block.Block(code)).split()))
    c.check('printed again', str(ln.comment) == str(m))
