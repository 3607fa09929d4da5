M = 'src/pygcode/machine.py'
G = 'src/pygcode/gcodes.py'
U = 'src/pygcode/utils.py'
W = 'src/pygcode/words.py'
T = 'src/pygcode/transform.py'
B = 'src/pygcode/block.py'
BUGS = [
 dict(id='c15-cmp-mutates', property='C15', file=M,
  edits=[("            p2 = copy(p2)\n            p2.unit = p1.unit\n", "            p2.unit = p1.unit\n")],
  demo='''
from pygcode.machine import Position
a = Position('XYZ', X=1, unit=21.0 if False else Position.default_unit)
from pygcode.machine import UNIT_IMPERIAL, UNIT_METRIC
a = Position('XYZ', X=10, unit=UNIT_METRIC)
b = Position('XYZ', X=1, unit=UNIT_IMPERIAL)
Position.min(a, b)
assert b.unit == UNIT_IMPERIAL and b.X == 1, (b.unit, b.X)
''', needs='min/max of positions in different units, then a further use of the second operand',
  what='Position.min/max convert their second operand in place'),
 dict(id='c16-mode-shallow', property='C16', file=M,
  edits=[("obj.modal_groups = deepcopy(self.modal_groups)", "obj.modal_groups = copy(self.modal_groups)")],
  demo='''
from copy import copy
from pygcode.machine import Machine
m = Machine()
m.process_str('G1 X1 F100')
n = copy(m)
n.mode.feed_rate.word.value = 500
assert m.mode.feed_rate.word.value == 100
''', needs='a mode code edited in place in the copy', what='copied modes share code objects with the original'),
 dict(id='c16-range-shared', property='C16', file=M,
  edits=[("obj.abs_pos = copy(self.abs_pos)", "obj.abs_pos = self.abs_pos")],
  demo='''
from copy import copy
from pygcode.machine import Machine
m = Machine()
m.process_str('G0 X3')
n = copy(m)
n.abs_pos.X = 9
assert m.abs_pos.X == 3
''', needs='abs_pos of the copy edited in place (moving replaces the object and hides it)', what='a copied machine shares its position object'),
 dict(id='c14-range-max', property='C14', file=M,
  edits=[("        self.abs_range_max = Position.max(pos, self.abs_range_max)\n",
          "        if pos != self.abs_range_min:\n            self.abs_range_max = Position.max(pos, self.abs_range_max)\n")],
  demo='''
from pygcode.machine import Machine
m = Machine()
m.abs_range_min.X = 5
m.abs_range_max.X = 5
m.abs_pos.X = 5
m.process_str('G0 X4')
m.process_str('G0 X6 Y-1')
assert m.abs_range_max.X == 6 and m.abs_range_min.X == 4
from pygcode.machine import Machine
m = Machine()
m.state.offset.X = 2
m.abs_pos.X = -1
m.abs_range_min = m.Position(X=-1, Y=0, Z=0); m.abs_range_max = m.Position(X=-3)
m.process_str('G0 X-3')
assert m.abs_range_max.X == -1, m.abs_range_max
''', needs='a position that is a new minimum on every axis while the maximum was still below it', what='maximum not updated when the position equals the minimum corner'),
 dict(id='c12-inc-subset', property='C12', file=G,
  edits=[("        machine.move_to(rapid=True, **self.get_param_dict(letters=machine.axes))",
          "        machine.move_to(rapid=True, **dict((k, v) for (k, v) in self.get_param_dict(letters=machine.axes).items() if v or machine.pos.values[k] > 0))")],
  demo='''
from pygcode.machine import Machine
m = Machine()
m.process_str('G0 X-5 Y5')
m.process_str('G0 X0 Y0')
assert (m.pos.X, m.pos.Y) == (0, 0), m.pos
''', needs='rapid to coordinate 0 from a negative position', what='rapid to 0 is skipped when the axis is negative'),
 dict(id='c13-order', property='C13', file=M,
  edits=[("        return (abs_pos - coord_sys_offset) - temp_offset", "        return (abs_pos - coord_sys_offset) if self.state.cur_coord_sys > 6 else (abs_pos - coord_sys_offset) - temp_offset")],
  demo='''
from pygcode.machine import Machine
m = Machine()
m.state.offset.X = 7
m.process_str('G59.1')
p = m.Position(X=1, Y=2, Z=3)
assert m.abs2work(m.work2abs(p)) == p
''', needs='temporary offset together with one of the systems G59.1-G59.3', what='temporary offset is not removed in the extended systems'),
 dict(id='c10-set-alias', property='C10', file=M,
  edits=[("                self.modal_groups[g.modal_group] = g.modal_copy()", "                self.modal_groups[g.modal_group] = g.modal_copy() if g.params else g")],
  demo='''
from pygcode.machine import Machine
from pygcode import GCodeFeedRate
m = Machine()
f = GCodeFeedRate(100)
m.process_gcodes(f)
f.word.value = 200
assert m.mode.feed_rate.word.value == 100
''', needs='editing a parameterless code after it was processed', what="the machine's mode aliases the processed code"),
 dict(id='c07-exempt', property='C07', file=B,
  edits=[],
  demo='', needs='', what=''),
 dict(id='c26-hash', property='C26', file=W,
  edits=[("        return hash((self.letter, self.value))", "        return hash((self.letter, self.value_str))")],
  demo='''
from pygcode.words import Word
a, b = Word('X', 0.0), Word('X', -0.0)
assert a == b and hash(a) == hash(b), (str(a), str(b))
assert len(set([a, b])) == 1
''', needs='words whose equal values print differently (0 and -0)', what='equal words have different hashes'),
 dict(id='c25-opposed', property='C25', file=U,
  edits=[("    angle = atan2(abs(axis), to_align.dot(with_this))", "    angle = atan2(abs(axis), to_align.dot(with_this) if (to_align.y or with_this.y) else abs(to_align.dot(with_this)))")],
  demo='''
from pygcode.utils import quat2align, Vector3
v = quat2align(Vector3(1, 0, 0.2), Vector3(-1, 0, 0.7)) * Vector3(1, 0, 0.2).normalized()
assert abs(v - Vector3(-1, 0, 0.7).normalized()) < 1e-6, v
''', needs='two vectors in the XZ plane more than 90 degrees apart', what='alignment rotation of vectors in the XZ plane is wrong beyond 90 degrees'),
 dict(id='c20-semicircle', property='C20', file=T,
  edits=[("        if abs(arc_p_start - arc_p_end) < max_error:", "        if abs(arc_start - arc_end) < max_error:")],
  demo='''
from pygcode.transform import linearize_arc
from pygcode import GCodeArcMoveCW, GCodeParameterError
from pygcode.machine import Position
from pygcode.exceptions import GCodeParameterError
try:
    list(linearize_arc(GCodeArcMoveCW(X=0, Y=0, Z=5, R=3), Position('XYZ')))
except GCodeParameterError:
    sys.exit(0)
sys.exit(1)
'''.replace('from pygcode import GCodeArcMoveCW, GCodeParameterError', 'from pygcode import GCodeArcMoveCW'), needs='helical radius arc ending above its start', what='a helical radius arc back to its start is accepted'),
]
BUGS = [b for b in BUGS if b['edits']]
