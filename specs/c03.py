"""Comments, codes and macros of a line"""
from pyvc.api import Spec
from .common import *

SPEC = Spec('C03')
SPEC.level = 'other'     # the core of the property is discharged up to the stated bounds only
ob = SPEC.ob
LINE = ['line:Line.__init__', 'line:Line.line_regex', 'comment:split_line', 'comment:CommentSemicolon', 'comment:CommentBrackets', 'block:Block.__init__']
SPEC.assume('the pieces of code between comments are words and blanks, none of them an O word (which takes the rest of the line)')
JOIN = '. '


# ---------------------------------------------------------------- oracle, one character at a time
def closed(t, i):
    """t[i] == '(': index of the bracket closing it, or None"""
    for j in range(i + 1, len(t)):
        if t[j] == ')':
            return j
    return None


def scan(t):
    """-> (pieces of code, comment texts, first is the kind of comment, macro or None)"""
    code, comments, kinds = [''], [], []
    # where the macro starts
    i = 0
    macro = None
    while i < len(t):
        j = closed(t, i) if t[i] == '(' else None
        if j is not None:
            i = j
        elif t[i] == '%':
            macro = t[i:]
            t = t[:i]
            break
        i += 1
    i = 0
    while i < len(t):
        j = closed(t, i) if t[i] == '(' else None
        if j is not None:
            comments.append(t[i + 1:j])
            kinds.append('(')
            code.append('')
            i = j
        elif t[i] == ';':
            comments.append(t[i + 1:].strip())
            kinds.append(';')
            break
        else:
            code[-1] += t[i]
        i += 1
    return code, comments, kinds, macro


WORDS = ['G1', 'X1.5', 'Y-2', 'Z.25', 'F100', 'S2000', 'M3', 'T4', 'N10', 'A0', 'B-7.125', 'C1', 'g90', 'x2', ' G17', 'M8', 'P1']


def comment_text(r, without):
    pool = 'abcXG01 .-%;(\t)' + ''.join(chr(r.randint(33, 126)) for _ in range(3))
    return ''.join(r.choice(pool) for _ in range(r.choice([0, 1, 1, 3, 6, 12]))).translate({ord(x): None for x in without + '\n'})


def sample_line(r):
    pool = list(WORDS)
    r.shuffle(pool)
    seen = set()
    out = []

    def piece():
        s = ''
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            w = pool.pop() if pool else ''
            l = w.strip()[:1].upper()
            if not l or l in seen:
                continue
            seen.add(l)
            s += r.choice(['', ' ', '  ', '\t']) + w
        return s + r.choice(['', '', ' '])
    out.append(piece())
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])):
        out.append('(' + comment_text(r, ')') + ')')
        out.append(piece())
    k = r.random()
    if k < 0.4:
        out.append(r.choice(['', ' ']) + ';' + comment_text(r, ''))
    if r.random() < 0.25:
        out.append('%' + comment_text(r, '') + r.choice(['', '%', ' ', '% ']))
    return ''.join(out) + r.choice(['', '\n', '\r\n', ' \n'])


@ob('lines', functions=LINE, kind='sample', weight=3, covers=['comment', 'macro', 'several'])
def lines(c):
    text = c.obj('line', sample_line)
    pieces, comments, kinds, macro = scan(text.rstrip('\n'))
    E = []
    for p in pieces:
        E += list(c.pg.words.text2words(p))
    line = c.pg.line.Line(text)
    W = list(line.block.words)
    c.check('the words outside comments, no others', [(w.letter, str(w.value)) for w in W] == [(w.letter, str(w.value)) for w in E])
    c.check('a comment exactly if there is one', (line.comment is None) == (not comments))
    if comments:
        c.cover('comment')
        c.check('all comment texts in order', line.comment.text == JOIN.join(comments))
        if len(comments) > 1:
            c.cover('several')
    c.check('a macro exactly if there is one', (line.macro is None) == (macro is None))
    if macro is not None:
        c.cover('macro')
        c.check('macro text', line.macro.strip() == macro.strip())


@ob('texts', functions=['comment:split_line'], kind='sample', weight=2)
def texts(c):
    """any text, not only well formed code"""
    text = c.obj('text', lambda r: ''.join(r.choice('((()));; \tab1GX.-') for _ in range(r.randint(0, 20))))
    pieces, comments, kinds, macro = scan(text)
    (block, comment) = c.pg.comment.split_line(text)
    c.check('code outside comments', ''.join(block.split()) == ''.join(''.join(pieces).split()))
    c.check('a comment exactly if there is one', (comment is None) == (not comments))
    if comments:
        c.check('all comment texts in order', comment.text == JOIN.join(comments))


# ---------------------------------------------------------------- any texts, unbounded length; a bounded number of comments
ANY = ''.join(map(chr, range(32, 127))) + '\t'
IN_BRACKETS = ''.join(x for x in ANY if x != ')')
CODE = ''.join(x for x in ANY if x not in '(;%')
BLANK = ' \t'
NOT_BLANK = ''.join(x for x in ANY if x not in ' \t')


@ob('brackets', functions=['comment:split_line', 'comment:CommentBrackets', 'comment:CommentSemicolon'], kind='bounded', bound='at most three comments in brackets and one behind a semicolon, texts of any length (of any characters up to one comment in brackets before an empty or one-character comment behind a semicolon, without blanks with two, without blanks and semicolons otherwise)', opts={'abstract': True})
def brackets(c):
    """split_line on code and comments"""
    n = c.choice('comments', [0, 1, 2, 3])
    last = c.choice('last', ['', 'empty', 'one', 'more'])

    # (more than one comment: the blanks are there or not together, as are all texts)
    flags = {}

    def some(name, chars, kind):
        f = kind if (n >= 2 or n and last == 'more') else name
        if f not in flags:
            flags[f] = c.bool(f + '?')
        if kind != 'blanks':
            # (and their texts are free of blanks, or of semicolons as well)
            if n >= 2 or n and last == 'more':
                chars = ''.join(x for x in chars if x not in BLANK)
            if n == 3 or n and last == 'more' or n == 2 and last == 'one':
                chars = chars.replace(';', '')
        return c.run(name, chars) if flags[f] else ''

    def code(k):
        if not (last and k == n):
            return some('code%d' % k, CODE, 'codes')
        # (blanks before the semicolon belong to the comment)
        x = some('code%d start' % k, CODE, 'codes')
        return x + c.char('code%d end' % k, [y for y in CODE if y not in ' \t']) if x != '' else x
    t = pieces = code(0)
    comments = []
    for k in range(n):
        x = some('text%d' % k, IN_BRACKETS, 'texts')
        y = code(k + 1)
        t = t + '(' + x + ')' + y
        pieces = pieces + y
        comments.append(x)
    if last:
        x = ''
        if last != 'empty':
            x = c.char('first', NOT_BLANK)
        if last == 'more':
            x = x + some('inner', ANY, 'texts') + c.char('end', NOT_BLANK)
        t = t + some('b0', BLANK, 'blanks') + ';' + some('b1', BLANK, 'blanks') + x + (some('b2', BLANK, 'blanks') if last != 'empty' else '')
        comments.append(x)
    if c.bool('newline'):
        t = t + '\n'
    (block, comment) = c.pg.comment.split_line(t)
    c.check('code outside comments', block == pieces)
    c.check('a comment exactly if there is one', (comment is None) == (not comments))
    if comments:
        e = comments[0]
        for x in comments[1:]:
            e = e + JOIN + x
        c.check('all comment texts in order', comment.text == e)
        c.check('kind of comment', type(comment).__name__ == ('CommentSemicolon' if last else 'CommentBrackets'))


@ob('macros', functions=LINE, kind='bounded', bound='at most one comment in brackets and one behind a semicolon, texts of any length', opts={'abstract': True}, covers=['macro', 'comment'])
def macros(c):
    """Line on code, a comment with '%' in it and a macro"""
    before = c.choice('before', ['', 'G1', 'G1 X1.5 '])
    after = c.choice('after', ['', 'Y-2', ' M3 '])
    kind = c.choice('comment', ['', '(', ';'])
    t = before
    x = None
    if kind == '(':
        x = c.run('text', IN_BRACKETS) if c.bool('text?') else ''
        t = t + '(' + x + ')' + after
    else:
        t = t + after
        if kind == ';':
            x = c.run('text', [y for y in ANY if y not in '% \t()']) if c.bool('text?') else ''
            t = t + ';' + x
    m = None
    if c.bool('macro?'):
        m = c.run('macro', NOT_BLANK) if c.bool('more?') else ''
        t = t + '%' + m
    t = t + c.choice('end', ['', '\n', ' \n'])
    line = c.pg.line.Line(t)
    E = [(w.letter, str(w.value)) for w in c.pg.words.text2words(before + after)]
    c.check('the words outside comments, no others', [(w.letter, str(w.value)) for w in line.block.words] == E)
    c.check('a comment exactly if there is one', (line.comment is None) == (x is None))
    if x is not None:
        c.cover('comment')
        c.check('comment text', line.comment.text == x)
    c.check('a macro exactly if there is one', (line.macro is None) == (m is None))
    if m is not None:
        c.cover('macro')
        c.check('macro text', line.macro.strip() == '%' + m)
