M = 'src/pygcode/machine.py'
G = 'src/pygcode/gcodes.py'
U = 'src/pygcode/utils.py'
W = 'src/pygcode/words.py'
T = 'src/pygcode/transform.py'
B = 'src/pygcode/block.py'
C = 'src/pygcode/comment.py'
D = 'src/pygcode/dialects/linuxcnc.py'
L = 'src/pygcode/line.py'
CROP = 'scripts/pygcode-crop'
NORM = 'scripts/pygcode-norm'
RUN = '''
import subprocess, tempfile
def script(name, args, text):
    with tempfile.NamedTemporaryFile('w', suffix='.ngc', delete=False) as f:
        f.write(text)
    try:
        env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), 'src'), PYTHONDONTWRITEBYTECODE='1')
        a = [x if x != 'FILE' else f.name for x in args]
        return subprocess.run([sys.executable, 'scripts/' + name] + a, env=env, stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout
    finally:
        os.unlink(f.name)
def run(m, text):
    out = []
    for l in text.splitlines():
        m.process_str(l)
        out.append(dict(m.pos.values))
    return out
'''
BUGS = [
 dict(id='c01-tool-int', property='C01', file=D,
  edits=[('''        cls=str,
        value_regex=REGEX_POSITIVEINT, # tool string may have leading '0's, but is effectively an index (integer)
        description="Tool selection",
        clean_value=CLEAN_NONE,''', '''        cls=str,
        value_regex=REGEX_POSITIVEINT, # tool string may have leading '0's, but is effectively an index (integer)
        description="Tool selection",
        clean_value=lambda v: v.lstrip('0') or '0',''')],
  demo='''
from pygcode.words import Word, str2word
w = Word('T', '0012')
assert str2word(str(w)) == w
''', needs='a tool word with leading zeros', what='printed tool words lose their leading zeros, so read back as a different tool'),
 dict(id='c01-int-regex', property='C01', file=D,
  edits=[("REGEX_POSITIVEINT = re.compile(r'^\\s*\\d+')", "REGEX_POSITIVEINT = re.compile(r'^\\s*\\d{1,6}')")],
  demo='''
from pygcode.words import Word, text2words
w = Word('N', 1234567)
assert list(text2words(str(w))) == [w]
''', needs='an integer of more than six digits', what='long integers are cut when read back'),
 dict(id='c02-remainder', property='C02', file=W,
  edits=[("if remainder and re.search(r'\\S', remainder):", "if remainder and re.search(r'\\w', remainder):")],
  demo='''
from pygcode.words import text2words
from pygcode.exceptions import GCodeWordStrError
try:
    list(text2words('G1 X1 -'))
    raise SystemExit(1)
except GCodeWordStrError:
    pass
''', needs='punctuation after the last word', what='trailing punctuation is silently dropped'),
 dict(id='c02-codedigits', property='C02', file=D,
  edits=[("REGEX_CODE = re.compile(r'^\\s*\\d+(\\.\\d)?')", "REGEX_CODE = re.compile(r'^\\s*\\d{1,2}(\\.\\d)?')")],
  demo='''
from pygcode.words import text2words
assert [str(w) for w in text2words('M100')] == ['M100']
assert [w.value for w in text2words('G0090 X1')] == [90, 1]
''', needs='a code number of more than two digits', what='long code numbers are cut'),
 dict(id='c02-axisplus', property='C02', file=D,
  edits=[("REGEX_FLOAT = re.compile(r'^\\s*-?(\\d+\\.?\\d*|\\.\\d+)')", "REGEX_FLOAT = re.compile(r'^\\s*-?\\s*(\\d+\\.?\\d*|\\.\\d+)')")],
  demo='''
from pygcode.words import text2words
from pygcode.exceptions import GCodeWordStrError
try:
    list(text2words('X- 1'))
except GCodeWordStrError:
    pass
else:
    raise SystemExit(1)
''', needs='a blank between the sign and the digits', what='accepts (then fails on) a blank after the sign'),
 dict(id='c03-nested', property='C03', file=C,
  edits=[("re.compile(r'\\((?P<text>[^\\)]*)\\)')", "re.compile(r'\\((?P<text>[^\\(\\)]*)\\)')")],
  demo='''
from pygcode import Line
l = Line('G1 X1 (G2 ( Y3) Z4')
assert l.comment.text == 'G2 ( Y3', l.comment
assert [str(w) for w in l.block.words] == ['G01', 'X1', 'Z4'], l.block.words
''', needs="an opening bracket inside a bracketed comment", what='comment text before an inner bracket leaks into the codes'),
 dict(id='c03-joiner', property='C03', file=C,
  edits=[("comment_text = comments_class.MULTICOMMENT_JOINER.join(comments)", "comment_text = comments_class.MULTICOMMENT_JOINER.join(sorted(set(comments), key=comments.index))")],
  demo='''
from pygcode import Line
l = Line('(a) G1 (b) X1 (a)')
assert l.comment.text == 'a. b. a', l.comment
''', needs='the same comment text twice on a line', what='repeated comment texts are lost'),
 dict(id='c04-firstowner', property='C04', file=G,
  edits=[("            if param_info['word'].letter in word_info['gcode_class'].param_letters:\n",
          "            if (param_info['param_to_index'] is None) and (param_info['word'].letter in word_info['gcode_class'].param_letters):\n")],
  demo='''
from pygcode.gcodes import words2gcodes
from pygcode.words import text2words
(gs, rest) = words2gcodes(list(text2words('G1 G2 X1 I2 F3')))
assert [str(g) for g in gs] == ['G01', 'G02 I2 X1', 'F3'], gs
''', needs='two codes on a line both accepting a letter', what='parameters go to the first code that accepts them, not the nearest'),
 dict(id='c05-cache', property='C05', file=G,
  edits=[("""    for (match_function, gcode_class) in _gcode_function_list:
        if match_function(word):
            return gcode_class
""", """    for (match_function, gcode_class) in _gcode_function_list:
        if match_function(word):
            _gcode_word_map[Word(word.letter, int(word.value) if word.letter == 'G' else word.value)] = gcode_class  # faster next time
            return gcode_class
""")],
  demo='''
from pygcode import Word
from pygcode.gcodes import word_gcode_class
word_gcode_class(Word('G', 38.2))
assert word_gcode_class(Word('G', 38)) is None
''', needs='a range code looked up first, then its integer part', what='what a word means depends on the words looked up before'),
 dict(id='c06-dup-equal', property='C06', file=G,
  edits=[("        if word.letter in self.params:\n            raise", "        if self.params.get(word.letter, word) != word:\n            raise")],
  demo='''
from pygcode import Word
from pygcode.gcodes import GCodeLinearMove
from pygcode.exceptions import GCodeParameterError
try:
    GCodeLinearMove(Word('G1'), Word('X1'), Word('X1.0'))
    raise SystemExit(1)
except GCodeParameterError:
    pass
''', needs='the same parameter given twice with one value', what='a repeated parameter is accepted'),
 dict(id='c06-zero', property='C06', file=G,
  edits=[("            if (letters is None) or (w.letter in letters)\n        )\n\n    # Process GCode", "            if (not letters) or (w.letter in letters)\n        )\n\n    # Process GCode")],
  demo='''
from pygcode.gcodes import GCodeLinearMove
assert GCodeLinearMove(X=1, Y=2).get_param_dict('') == {}
''', needs='an empty set of requested letters', what='no filter where nothing is requested'),
 dict(id='c07-nonmodal', property='C07', file=B,
  edits=[("            code_words.add(gc.word)\n\n            # Assert all gcodes are from different modal groups\n            if gc.modal_group is not None:\n",
          "\n            # Assert all gcodes are from different modal groups\n            if gc.modal_group is not None:\n                code_words.add(gc.word)\n")],
  demo='''
from pygcode import Block
try:
    Block('G4 P1 G04 P2')
    raise SystemExit(1)
except AssertionError:
    pass
''', needs='a repeated code that has no modal group', what='repeated non-modal codes are accepted'),
 dict(id='c08-brackets', property='C08', file=C,
  edits=[('''    def __str__(self):
        return "({text})".format(text=self.text)''', '''    def __str__(self):
        return "({text})".format(text=self.text.strip())''')],
  demo='''
from pygcode import Line
l = Line('G1 X1 ( padded )')
assert Line(str(l)).comment.text == l.comment.text
''', needs='a comment with blanks at its ends', what='printing changes the comment text'),
 dict(id='c09-tie', property='C09', file=M,
  edits=[("        for gcode in sorted(gcode_list):\n            gcode.process(self)", "        for gcode in sorted(gcode_list, key=lambda g: (g.exec_order, g.word)):\n            gcode.process(self)")],
  demo='''
from pygcode.machine import Machine
from pygcode.gcodes import GCodeLinearMove, GCodeRapidMove
m = Machine()
m.process_gcodes(GCodeLinearMove(X=1), GCodeRapidMove(X=2))
assert m.pos.X == 2
''', needs='two codes of equal rank whose words are in descending order', what='equally ranked codes run in word order'),
 dict(id='c10-g80', property='C10', file=G,
  edits=[("    def _process(self, machine):\n        machine.mode.motion = None\n", "    def _process(self, machine):\n        if isinstance(machine.mode.motion, GCodeCannedCycle):\n            machine.mode.motion = None\n")],
  demo='''
from pygcode.machine import Machine
m = Machine()
m.process_str('G1 X1 F1')
m.process_str('G80')
assert m.mode.motion is None
''', needs='G80 while no canned cycle is active', what='G80 leaves other motion modes active'),
 dict(id='c10-setter', property='C10', file=M,
  edits=[("                if value.modal_group != MODAL_GROUP_MAP[key]:\n", "                if value.modal_group is None:\n")],
  demo='''
from pygcode.machine import Machine, MachineInvalidState
from pygcode.gcodes import GCodeUseInches
m = Machine()
try:
    m.mode.distance = GCodeUseInches()
    raise SystemExit(1)
except MachineInvalidState:
    pass
''', needs="assigning a modal code to another group's slot", what="a code can be installed in another group's slot"),
 dict(id='c11-clean', property='C11', file=M,
  edits=[("        elif any(True for g in block.gcodes if g.modal_group == GCodeMotion.modal_group):\n",
          "        elif any(True for g in block.gcodes if isinstance(g, GCodeMotion)):\n")],
  demo='''
from pygcode.machine import Machine
from pygcode.block import Block
m = Machine()
m.process_str('G82 X1 Y1 Z-1 R1 P1')
b = Block('G83 X2 Y2 Z-1 R1 Q1 P5')
m.clean_block(b)
assert b.modal_params == [], b.modal_params
''', needs='a line with its own canned cycle and a parameter only the active cycle takes', what='misplaced parameters stay in a cleaned block'),
 dict(id='c12-rapid', property='C12', file=G,
  edits=[("machine.move_to(rapid=True, **self.get_param_dict(letters=machine.axes))", "machine.move_to(rapid=True, **self.get_param_dict(letters=machine.axes & set('XYZ')))")],
  demo='''
from pygcode.machine import Machine
class M4(Machine):
    axes = set('XYZA')
m = M4()
m.process_str('G0 X1 A2')
assert m.pos.A == 2
''', needs='a machine with rotary axes and a rapid', what='rapids do not move axes beyond X, Y and Z'),
 dict(id='c13-offset', property='C13', file=M,
  edits=[("        return (abs_pos - coord_sys_offset) - temp_offset\n", "        return (abs_pos - coord_sys_offset) - (temp_offset if self.state.cur_coord_sys else coord_sys_offset)\n")],
  demo='''
from pygcode.machine import NullMachine, Position
m = NullMachine()
m.state.cur_coord_sys = None
m.state.offset.X = 3
assert m.abs2work(m.abs_pos).X == -3
''', needs='no coordinate system selected and a temporary offset set', what='temporary offset ignored without a coordinate system'),
 dict(id='c13-coordids', property='C13', file=M,
  edits=[("        coord_sys_mode = self.mode.coordinate_system\n        if coord_sys_mode:\n            self.state.cur_coord_sys = coord_sys_mode.coord_system_id\n",
          "        for g in gcode_list:\n            if g.modal_group == MODAL_GROUP_MAP['coordinate_system']:\n                work_pos = self.pos\n                self.state.cur_coord_sys = g.coord_system_id\n                if self.state.offset.X:\n                    self.abs_pos = self.work2abs(work_pos)\n")],
  demo='''
from pygcode.machine import Machine
m = Machine()
m.state.offset.X = 1
m.state.coord_systems[3].offset.X = 5
p = m.abs_pos
m.process_str('G56')
assert m.abs_pos == p
''', needs='a temporary X offset while another coordinate system is selected', what='selecting a coordinate system moves the machine'),
 dict(id='c14-work', property='C14', file=M,
  edits=[("        self._update_abs_range(self.abs_pos)\n", "        self._update_abs_range(value)\n")],
  demo='''
from pygcode.machine import Machine
m = Machine()
m.state.coord_systems[1].offset.X = 10
m.process_str('G0 X1')
assert m.abs_range_max.X == 11
''', needs='an offset', what='the range is recorded in work coordinates'),
 dict(id='c15-imperial', property='C15', file=M,
  edits=[("            for k in [k for (k, v) in self._value.items() if v is not None]:\n", "            for k in [k for (k, v) in self._value.items() if (v is not None) and (k not in 'ABC')]:\n")],
  demo='''
from pygcode.machine import Position
a = Position('XA', X=1, A=25.4, unit=1)
b = Position('XA', X=1/25.4, A=1, unit=0)
assert abs((a - b).A) < 1e-9
''', needs='a rotary axis and a unit conversion', what='rotary axes are not converted (the library treats all axes alike)'),
 dict(id='c15-cmp-left', property='C15', file=M,
  edits=[("            unit=p1.unit,\n            **dict(", "            unit=cls.default_unit if p1.axes <= set('XYZ') else p1.unit,\n            **dict(")],
  demo='''
from pygcode.machine import Position
a = Position('XYZ', X=1, unit=0)
assert Position.min(a, a).unit == 0
''', needs='min or max of positions not in the default unit', what='the unit of the result is wrong'),
 dict(id='c16-cs', property='C16', file=M,
  edits=[("        obj.offset = copy(self.offset)\n        return obj\n\n    def __repr__", "        obj.offset = self.offset\n        return obj\n\n    def __repr__")],
  demo='''
from copy import copy
from pygcode.machine import Machine
m = Machine()
n = copy(m)
n.state.coord_systems[2].offset.X = 4
assert m.state.coord_systems[2].offset.X == 0
''', needs='an offset edited after copying', what='copied coordinate systems share their offset'),
 dict(id='c17-accum', property='C17', file=T,
  edits=[("            cur_pos += l_delta # mitigate", "            cur_pos = l_end # mitigate")],
  demo='''
from pygcode.machine import Position, Machine
from pygcode.transform import linearize_arc
from pygcode.gcodes import *
a = GCodeArcMoveCCW(X=10, Y=0, I=5, J=0)
x = y = 0.0
for g in linearize_arc(a, Position('XYZ'), dist_mode=GCodeIncrementalDistanceMode(), max_error=0.0005, decimal_places=2):
    x += g.X; y += g.Y
assert abs(x - 10) < 0.01 and abs(y) < 0.01, (x, y)
''', needs='incremental mode and many lines', what='rounding errors accumulate'),
 dict(id='c17-shift', property='C17', file=T,
  edits=[("        yield (l_start, self.arc_p_end + self.helical_end)", "        yield (l_start, l_start + (self.arc_p_end + self.helical_end - l_start) if self.wedge_count > 1 else self.arc_p_end + self.helical_start)")],
  demo='''
from pygcode.machine import Position
from pygcode.transform import linearize_arc, ArcLinearizeInside
from pygcode.gcodes import *
a = GCodeArcMoveCW(X=0.1, Y=0.1, Z=5, I=0.1)
gs = list(linearize_arc(a, Position('XYZ'), method_class=ArcLinearizeInside, max_error=1))
assert len(gs) == 1 and gs[-1].Z == 5, gs
''', needs='a helical arc replaced by one line', what='the height change is lost'),
 dict(id='c18-helix', property='C18', file=T,
  edits=[("(d_helical * (cur_angle / self.arc_angle))", "(d_helical * (float(wedge_number) / self.wedge_count))")],
  demo='''
from pygcode.machine import Position
from pygcode.transform import linearize_arc, ArcLinearizeMid
from pygcode.gcodes import *
from math import atan2, pi
a = GCodeArcMoveCCW(X=-10, Y=0, Z=8, I=-5, J=0)
for g in linearize_arc(a, Position('XYZ'), max_error=1):
    ang = atan2(g.Y, g.X + 5) % (2 * pi)
    assert abs(g.Z - 8 * ang / pi) < 1e-6, g
''', needs='a helical arc with the mid or outside method', what='height does not advance with the angle'),
 dict(id='c18-round', property='C18', file=T,
  edits=[("self._wedge_count = int(ceil(abs(self.arc_angle) / self.max_wedge_angle))", "self._wedge_count = int(round(abs(self.arc_angle) / self.max_wedge_angle)) or 1")],
  demo='''
from pygcode.machine import Position
from pygcode.transform import linearize_arc, ArcLinearizeInside
from pygcode.gcodes import *
for k in range(1, 40):
    e = 0.05 * k
    p = [(5., 0.)] + [(g.X, g.Y) for g in linearize_arc(GCodeArcMoveCCW(X=-5, Y=0, I=-5), Position('XYZ', X=5), method_class=ArcLinearizeInside, max_error=e)]
    for (a, b) in zip(p, p[1:]):
        m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        assert 5 - (m[0] ** 2 + m[1] ** 2) ** .5 <= e + 1e-6, (k, m)
''', needs='an arc whose number of wedges has a fraction below one half', what='the error limit is exceeded'),
 dict(id='c19-rapidcut', property='C19', file=T,
  edits=[("                just_above_base = last_depth + 0.1\n", "                just_above_base = max(last_depth, cur_depth) - 0.1 if canned_gcode.Q and abs(canned_gcode.Q) > 5 else last_depth + 0.1\n")],
  demo='''
from pygcode.machine import Position
from pygcode.transform import simplify_canned_cycle
from pygcode.gcodes import *
cut = 0
for g in simplify_canned_cycle(GCodeDrillingCyclePeck(X=1, Z=-20, R=1, Q=6), Position('XYZ', Z=5)):
    if g.Z is None: continue
    if isinstance(g, GCodeLinearMove): cut = min(cut, g.Z)
    else: assert g.Z >= cut or g.Z >= 1, g
''', needs='pecks of more than 5', what='rapids into uncut material'),
 dict(id='c19-return', property='C19', file=T,
  edits=[("                final_depth = start_pos.Z\n", "                final_depth = max(start_pos.Z, retract_depth) if cycle_count > 1 else start_pos.Z\n")],
  demo='''
from pygcode.machine import Machine, Position
from pygcode.transform import simplify_canned_cycle
from pygcode.gcodes import *
m = Machine(); m.pos = m.Position(Z=2)
c = GCodeDrillingCycle(X=1, Z=-3, R=4, L=2)
n = Machine(); n.pos = n.Position(Z=2)
m.process_gcodes(c)
n.process_gcodes(*[]) 
for g in simplify_canned_cycle(c, Position('XYZ', Z=2)): n.process_gcodes(g)
assert n.pos == m.pos, (n.pos, m.pos)
''', needs='a repeated cycle starting below the retract level', what='the expanded cycle ends at another height'),
 dict(id='c20-helixspot', property='C20', file=T,
  edits=[("        if abs(arc_p_start - arc_p_end) < max_error:", "        if abs(arc_start - arc_end) < max_error:")],
  demo='''
from pygcode.machine import Position
from pygcode.transform import linearize_arc
from pygcode.gcodes import *
from pygcode.exceptions import GCodeParameterError
try:
    list(linearize_arc(GCodeArcMoveCW(X=0, Y=0, Z=5, R=3), Position('XYZ')))
    raise SystemExit(1)
except GCodeParameterError:
    pass
''', needs='a radius arc that changes only its height', what='an arc without a determined centre is accepted'),
 dict(id='c20-kr', property='C20', file=G,
  edits=[("        params_ijk = set('IJK') & set(param_letters)\n", "        params_ijk = set('IJ') & set(param_letters)\n")],
  demo='''
from pygcode.gcodes import *
from pygcode.exceptions import GCodeParameterError
GCodeArcMoveCW(Z=1, K=1).assert_params()
try:
    GCodeArcMoveCW(Z=1, K=1, R=2).assert_params()
    raise SystemExit(1)
except GCodeParameterError:
    pass
''', needs='an arc with K as its only centre parameter', what='K arcs are refused, K with R accepted'),
 dict(id='c21-alias', property='C21', file=U,
  edits=[("                    g = copy(g) # duplicate gcode object\n", "")],
  demo='''
from pygcode.utils import omit_redundant_modes
from pygcode.gcodes import *
gs = [GCodeLinearMove(X=1), GCodeLinearMove(X=2)]
out = list(omit_redundant_modes(gs))
assert str(gs[1]) == 'G01 X2', gs[1]
''', needs='the original codes used afterwards', what='the original codes print without their word'),
 dict(id='c22-inplace', property='C22', file=G,
  edits=[("        gcode_list = sorted(gcode_list)\n\n    split", "        gcode_list.sort()\n\n    split")],
  demo='''
from pygcode.gcodes import *
from pygcode.gcodes import split_gcodes
l = [GCodeLinearMove(X=1), GCodeFeedRate(3)]
k = list(l)
split_gcodes(l, GCodeFeedRate)
assert l[0] is k[0]
''', needs='an unsorted list used afterwards', what="the caller's list is sorted in place"),
 dict(id='c22-type', property='C22', file=G,
  edits=[("        if isinstance(gcode, splitter_class):\n", "        if type(gcode) is splitter_class or type(gcode).__base__ is splitter_class:\n")],
  demo='''
from pygcode.gcodes import *
from pygcode.gcodes import split_gcodes
l = [GCodeFeedRate(3), GCodeArcMoveCW(X=1, R=3)]
(a, b, c) = split_gcodes(l, GCodeMotion)
assert len(b) == 1
''', needs='a kind two levels above the code', what='deeper subclasses are not recognised'),
 dict(id='c23-arcdist', property='C23', file=NORM,
  edits=[("                'arc_dist_mode': machine.mode.arc_ijk_distance,\n", "")],
  demo=RUN + '''
from pygcode.machine import Machine
text = "G21 G90 G17 G90.1\\nG0 X13 Y10\\nG3 X10 Y13 I10 J10 F100\\n"
out = script('pygcode-norm', ['-al', 'FILE'], text)
m = Machine()
p = run(m, out)[3:]
assert all(abs(((q['X'] - 10) ** 2 + (q['Y'] - 10) ** 2) ** .5 - 3) < 0.1 for q in p if q['X'] or q['Y']), p
''', needs='arc linearising in a program using absolute arc centres', what='arc centres are misread'),
 dict(id='c23-singles', property='C23', file=NORM,
  edits=[("        for g in sorted(gcodes):\n            write([g], comment=comment)\n", "        for g in sorted(set(gcodes), key=gcodes.index) if False else gcodes:\n            write([g], comment=comment)\n")],
  demo=RUN + '''
from pygcode.machine import Machine
text = "G0 X1\\nX5 G91 G1 F100\\nG1 X2 G90\\n"
out = script('pygcode-norm', ['-s', 'FILE'], text)
a, b = Machine(), Machine()
run(a, text); run(b, out)
assert a.pos == b.pos, (a.pos, b.pos, out)
''', needs='splitting a line whose text order differs from its execution order', what='split codes run in text order'),
 dict(id='c24-ge', property='C24', file=CROP,
  edits=[("            '>=': lambda a, b: a >= b,", "            '>=': lambda a, b: (a > b) or (abs(a - b) < 1),")],
  demo=RUN + '''
text = "G21 G90\\nG0 X1\\nG0 X9.5\\nG0 X10\\nG0 X11\\n"
out = script('pygcode-crop', ['FILE', 'x>=10:'], text)
assert 'X9.5' not in out.split('\\n\\n')[-1], out
''', needs='a condition met almost', what='lines before the condition holds are kept'),
 dict(id='c24-plane', property='C24', file=CROP,
  edits=[("            if not isinstance(plane, GCodePlaneSelect):\n", "            if not isinstance(plane, GCodeSelectXYPlane):\n")],
  demo=RUN + '''
from pygcode.machine import NullMachine, Machine
text = "G21 G90 G18\\nG0 X1 Y9 Z3\\nY2\\nG1 X4 F1\\nX5\\n"
out = script('pygcode-crop', ['FILE', '5:'], text)
m = Machine()
run(m, out.rsplit('G01', 1)[0])
assert m.abs_range_max.Y == 9, (m.abs_range_max, out)
''', needs='cropping in the ZX or YZ plane', what='moves sideways below the highest level along the tool axis of that plane'),
 dict(id='c24-last', property='C24', file=CROP,
  edits=[("        return lambda n, pos: all(x(n, pos) for x in cmp_list)\n", "        return lambda n, pos: all(x(n, pos) for x in cmp_list[-2:])\n")],
  demo=RUN + '''
text = "G21 G90\\nG0 X1 Y2 Z3\\nG0 X4\\nG0 Z9\\n"
out = script('pygcode-crop', ['FILE', 'x>3,y>1,z>5:'], text)
assert 'G00 Z9' in out and out.split('\\n\\n')[-1].strip() == 'G00 Z9', out
out = script('pygcode-crop', ['FILE', 'x>3,y>1,z>0:'], text)
assert out.split('\\n\\n')[-1].strip().startswith('G00 X4'), out
''', needs='three conditions', what='only two of the start conditions count'),
 dict(id='c25-projection', property='C25', file=U,
  edits=[("    n = normal.normalized()\n", "    n = normal.normalized() if abs(normal) > 1.5 else normal\n")],
  demo='''
from pygcode.utils import plane_projection, Vector3
v = plane_projection(Vector3(1, 2, 3), Vector3(0, 0, 0.5))
assert abs(v.z) < 1e-9, v
''', needs='a short normal that is not of unit length', what='the normal component is not removed'),
 dict(id='c26-first', property='C26', file=W,
  edits=[("        (w.letter, w.value) for w in word_list\n", "        (w.letter, w.value) for w in reversed(word_list)\n")],
  demo='''
from pygcode.words import words2dict, Word
assert words2dict([Word('X1'), Word('Y3'), Word('X2')]) == {'X': 2, 'Y': 3}
''', needs='a letter used twice', what='the first value wins'),
 dict(id='c26-le', property='C26', file=W,
  edits=[("        return (self.letter, self.value) <= (other.letter, other.value)", "        return (self.letter <= other.letter) and (self.value <= other.value)")],
  demo='''
from pygcode.words import Word
assert Word('A5') <= Word('B1')
''', needs='words of different letters with descending values', what='the order is not by letter first'),
]
