M = 'src/pygcode/machine.py'
G = 'src/pygcode/gcodes.py'
U = 'src/pygcode/utils.py'
W = 'src/pygcode/words.py'
T = 'src/pygcode/transform.py'
B = 'src/pygcode/block.py'
BUGS = [
 dict(id='c01-printcache', property='C01', file=W,
  edits=[('''        return self._value_clean(self.value)
''', '''        if '_value_text' not in self.__dict__:
            self._value_text = self._value_clean(self.value)
        return self._value_text
''')],
  demo='''
from pygcode.words import Word, str2word
w = Word('X', 1.5)
str(w)
w.value = 2.5
assert str2word(str(w)) == Word('X', 2.5)
''', needs='a word printed, given another value and printed again', what='a word prints the value it had when first printed'),
 dict(id='c07-verifyoff', property='C07', file=B,
  edits=[('''            if verify:
                self._assert_gcodes()''', '''            if not verify:
                Block._assert_gcodes = lambda self: None
            self._assert_gcodes()''')],
  demo='''
from pygcode.block import Block
Block('G0 G1', verify=False)
try:
    Block('G0 G1')
    raise SystemExit(1)
except AssertionError:
    pass
''', needs='a block built with verification off before', what='once verification was off for one block it is off for all'),
 dict(id='c11-asked', property='C11', file=M,
  edits=[('        gcodes = copy(block.gcodes)', '        gcodes = block.gcodes')],
  demo='''
from pygcode import Machine, Block
from pygcode.words import Word
m = Machine()
m.process_str('G91 G1 X1')
b = Block('X1')
m.block_modal_gcodes(b)
m.process_block(b)
assert m.pos.X == 2, m.pos
''', needs='a block the machine was asked about before running it, in incremental mode', what='the bare words are executed twice'),
 dict(id='c26-hashcache', property='C26', file=W,
  edits=[('        return hash((self.letter, self.value))', '''        if '_hash' not in self.__dict__:
            self._hash = hash((self.letter, self.value))
        return self._hash''')],
  demo='''
from pygcode.words import Word
w = Word('X', 1)
hash(w)
w.value = 2
assert w == Word('X', 2) and hash(w) == hash(Word('X', 2))
''', needs='a word hashed, then given another value', what='equal words have different hashes'),
 dict(id='c13-offsetmemo', property='C13', file=M,
  edits=[('''        temp_offset = self.state.offset
        return (abs_pos - coord_sys_offset) - temp_offset
''', '''        temp_offset = self.state.offset
        memo = self.__dict__.setdefault('_offsets', {})
        key = self.state.cur_coord_sys
        if key not in memo:
            memo[key] = coord_sys_offset + temp_offset
        return abs_pos - memo[key]
''')],
  demo='''
from pygcode import Machine
m = Machine()
m.pos
m.state.coord_systems[1].offset.X = 5
m.process_str('G0 X1')
assert m.abs_pos.X == 6 and m.pos.X == 1, (m.abs_pos, m.pos)
''', needs='an offset edited after the position was read in that system', what='positions are reported with an earlier offset'),
 dict(id='c06-wordsafter', property='C06', file=G,
  edits=[('''            if key in self.params:
                self.params[key].value = value
            else:
                self.add_parameter(Word(key, value))
''', '''            if key in self.params:
                self.params[key].value = value
                for w in self.params.values():
                    if w._value is self.word._value:
                        w.value = value
            else:
                self.add_parameter(Word(key, value))
''')],
  demo='''
from pygcode.gcodes import GCodeLinearMove
from pygcode.words import Word
w = Word('G', 1)
g = GCodeLinearMove(w, Word('X', w.value), Word('Y', 2.0))
g.Y = 5
assert g.X == 1, g
''', needs='a parameter holding the very number of the code word', what='assigning one parameter changes another'),
]
