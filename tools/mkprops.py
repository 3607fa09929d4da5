#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list, kept in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
W="src/pygcode/words.py";L="src/pygcode/dialects/linuxcnc.py";G="src/pygcode/gcodes.py";M="src/pygcode/machine.py"
B="src/pygcode/block.py";C="src/pygcode/comment.py";LI="src/pygcode/line.py";T="src/pygcode/transform.py";U="src/pygcode/utils.py"

p("C01","A printed word reads back as the same word",
  "Printing any word and parsing the printed text gives exactly one word with the same letter, whose value differs from the original by at most 0.0005 for decimal letters and not at all for integer letters (N, L), text letters (T) and G/M codes with at most one decimal. The printed text is plain decimal notation (no exponent, no spaces) however large or small the value, and printing the re-read word gives the same text again.",
  ["inputs"],"every letter of the dialect except O, every finite value of that letter's type (non-negative for G, M, N, L and T)",
  "tests print a dozen small values; magnitude, sign and rounding boundary are unbounded",
  [L,W],[("clean_value functions of WORD_MAP",L),("Word.__str__ / value_str",W),("REGEX_FLOAT, REGEX_INT, REGEX_CODE",L)],observe=["str(Word)","text2words"])
p("C02","Block text is split into exactly the words it spells",
  "For any comment-free block text, parsing yields one word per word letter met scanning left to right, in text order: the letter upper-cased (case is irrelevant) and the value denoted by the longest valid numeric literal of that letter's kind that follows (optional blanks before the number; signed decimal for axis and parameter letters, unsigned integer for N, L and T, unsigned with at most one decimal digit for G and M, rest of the line for O). If some letter is not followed by such a literal, or visible characters remain after the last word, the format error for words is raised and no other kind of error; blanks between words, letters and numbers never change the result.",
  ["inputs"],"all ASCII block texts of any length",
  "the tokeniser tests use a handful of well formed blocks; texts are unbounded",
  [W,L],[("text2words loop",W),("str2word",W),("WORD_MAP value_regex",L)],observe=["text2words","str2word","GCodeWordStrError"])
p("C03","Comments never leak into codes and codes never leak into comments",
  "In any line, text inside ( ) and text after a ';' that is outside brackets becomes comment text and contributes no words; everything outside them (up to a '%' macro marker outside brackets) contributes exactly the words it would contribute alone (an O word takes the rest of the code before the next comment). A line with several comments keeps all their texts in order, and a line without comments has none.",
  ["inputs"],"all single-line ASCII texts mixing codes, (..) comments, ';' comments and a %macro, in any number and order",
  "tests cover six fixed lines; interleavings of comment styles are unbounded",
  [C,LI],[("split_line",C),("Line.line_regex and Line.__init__",LI)],observe=["Line.block","Line.comment","Line.macro","split_line"])
p("C04","Every word on a line is used exactly once, by the right code",
  "Grouping a word list into codes is a partition: each word is either the defining word of one code, a parameter of one code, or returned as unassigned, and codes come out in text order. A word whose letter is accepted as a parameter by an earlier code on the line belongs to the nearest such code before it (even if the word could define a code itself), words that no earlier code accepts are returned unassigned in order, and two parameters with one letter on one code are rejected with the parameter error.",
  ["inputs"],"all word lists (any length, any letters, any values)",
  "tests sample a few blocks; assignments depend on every ordering of letters",
  [G],[("words2gcodes",G),("word_gcode_class",G),("GCode.add_parameter",G)],observe=["words2gcodes","text2gcodes","Block.gcodes","Block.modal_params"])
p("C05","Each supported code word means one code, mode group and execution rank",
  "For every letter and every value that can be written in a program (G and M codes: at most one decimal), a word identifies a code exactly when LinuxCNC's tables (as documented in the library) list it, always the same code, whatever order codes were looked up in; the code's accepted parameter letters, modal group and position in the execution order are those of the tables. A code built without an explicit word gets a word that identifies that same code.",
  ["inputs"],"all words (any letter, any value) and all code classes",
  "tests look up a few codes; the value axis is continuous and near-miss values are never tried",
  [G],[("word_key / word_matches / default_word of every class",G),("build_maps, word_gcode_class",G),("MODAL_GROUP_MAP, exec_order",G)])
p("C06","A code holds only its own parameters, once each, readable and writable",
  "Building a code with a parameter letter it does not accept, or with one letter twice, raises the parameter error; otherwise each given letter reads back with the given value, accepted but absent letters read as absent, and unknown names raise an attribute error. Assigning a letter changes that parameter only (creating it if absent and accepted), the parameter dictionary lists exactly the present letters (filtered to a requested set), and two codes are equal exactly when their words and parameters are.",
  ["inputs","histories"],"all code classes, letters, values and assignment sequences",
  "tests build a few codes with a few letters",
  [G,W],[("GCode.__init__, add_parameter, __getattr__, __setattr__, get_param_dict, __eq__",G)])
p("C07","A block is rejected exactly when its codes conflict",
  "A block is rejected at construction if and only if two of its codes repeat the same code word or belong to the same modal group; with verification off it is never rejected for that. Non-conflicting codes are accepted whatever their number, order and parameters.",
  ["inputs"],"all code lists of any length",
  "tests check three conflicting pairs",
  [B,G],[("Block._assert_gcodes",B),("modal_group",G)],observe=["Block()"])
p("C08","Printed codes, blocks and lines read back as the same program text",
  "Printing a code, block or line and parsing the result gives equal codes with equal parameters and equal leftover parameters in the same order (decimal values within 0.0005), with the same comment text and macro. A second print gives the same text as the first.",
  ["inputs"],"all code classes with all subsets of parameters and all values; all blocks whose parameters follow their code; comments without brackets, '%' after a ';', or line breaks; words and blanks only between comments",
  "tests compare a few fixed strings",
  [G,B,LI,C],[("GCode.__str__",G),("Block.__str__",B),("Line.__str__",LI),("CommentBase.__str__",C)])
p("C09","Codes on a line run in execution order, not text order",
  "However the codes of a line are ordered in the text, the machine executes them in LinuxCNC's order of execution, so any permutation of codes with distinct execution ranks leaves the machine in the same final state. Codes of equal rank run in text order.",
  ["inputs","histories"],"all lines, all permutations of their codes, all machine states",
  "tests try one or two orderings",
  [M,G],[("Machine.process_gcodes, block_modal_gcodes",M),("GCode.__lt__, exec_order",G)])
p("C10","A modal setting lasts until a code of its own group replaces it",
  "After a code is processed, the machine's mode for that code's group is that code (with the parameters it retains) and every other group's mode is unchanged, for any history; G80 alone clears the motion mode. A remembered mode is independent of the code it came from: editing the code, or the block it was in, afterwards does not change the machine, and a code cannot be installed in another group's slot.",
  ["histories","inputs"],"all histories of processed codes and later edits to them",
  "tests process short fixed scripts and never edit codes afterwards",
  [M,G],[("Mode.set_mode, __setattr__, __copy__",M),("GCode.modal_copy, process",G),("GCodeCancelCannedCycle._process",G)],
  state=[("modal_groups","current code per modal group",M)])
p("C11","A line of bare axis words repeats the current motion",
  "A line holding only parameters has the same effect on the machine as the same line written with the active motion code in front (for canned cycles, with remembered parameters filled in where the line gives none). With no active motion, or with a parameter that motion does not accept, the machine raises its state error and does not move, unless told to ignore such parameters, in which case exactly those are ignored; cleaning a block removes exactly those parameters.",
  ["histories","inputs"],"all machine states, motion modes and parameter lines",
  "tests continue G0/G1 once or twice",
  [M,G],[("Machine.modal_gcode, block_modal_gcodes, clean_block, process_gcodes",M),("GCode.modal_copy, modal_param_letters",G)])
p("C12","Moves change exactly the axes named, by or to exactly the values given",
  "In absolute mode a rapid or linear (or arc, probe, spline, threading) move leaves each named axis of the machine at the given work coordinate and every other axis where it was; in incremental mode each named axis changes by the given amount and the others stay. Axes the machine does not have are ignored, and dwell and non-motion codes never move the machine.",
  ["inputs","histories"],"all machine states (position, offsets, active coordinate system), all coordinates, all subsets of axes, both distance modes, all motion codes",
  "tests move a few times with zero offsets",
  [M,G],[("Machine.move_to",M),("GCodeMotion._process",G),("Machine.pos",M)])
p("C13","Work and machine coordinates convert back and forth exactly",
  "Machine position = work position + active coordinate system offset + temporary offset for every axis, and the two conversions are inverse for all positions and offsets. Selecting a coordinate system (G54 to G59.3) makes exactly that system's offset active without moving the machine or changing any stored offset; setting the work position moves the machine to the matching machine position.",
  ["inputs","histories"],"all offsets, positions, coordinate systems and selection histories",
  "tests use one offset and one system",
  [M,G],[("Machine.abs2work, work2abs, pos, set_mode",M),("State.coord_sys, CoordinateSystem",M),("coord_system_id",G)])
p("C14","The recorded motion range is the exact bounding box of visited positions",
  "After any sequence of moves, the recorded minimum and maximum machine positions are per axis the smallest and largest machine coordinate reached so far (including the start); they always enclose the current position and never shrink.",
  ["histories"],"all move sequences, offsets and distance modes",
  "tests check at most a couple of moves",
  [M],[("Machine._update_abs_range, pos setter",M),("Position.min, max, _cmp",M)],state=[("abs_range_min/max","bounding box corners",M)])
p("C15","Position arithmetic is exact per axis, unit-aware and free of side effects",
  "Adding, subtracting, scaling, dividing, per-axis min/max and unit conversion of positions act per axis as on plain coordinates expressed in one length unit (1 inch = 25.4 mm; mixed-unit operands are converted to the left operand's unit), and conversion to the other unit and back restores the value. Two positions are equal exactly when they have the same axes and the same coordinates in a common unit; no operation or read changes its operands, and mismatched or unknown axes raise the axis error.",
  ["inputs"],"all axis subsets, coordinate values, units and operand pairs",
  "tests use a few small integer positions",
  [M],[("Position",M),("UNIT_MAP",M)])
p("C16","A copied machine equals the original and evolves independently",
  "A copy of a machine, mode, state or position reports the same position, range, modes, coordinate systems, selected system and offsets as the original, in every state reachable. Processing further codes on one, or editing its position, offsets or modes, never changes the other.",
  ["histories","inputs"],"all machine states and all later operations on either copy",
  "tests do not copy machines with offsets set",
  [M],[("Machine.__copy__, State.__copy__, Mode.__copy__, CoordinateSystem.__copy__, Position.__copy__",M)])
p("C17","Linearised arcs start, chain and end exactly where the arc does",
  "Replacing an arc by line moves yields line moves only, at least one of them, that leave the machine at the arc's own end point: exactly in absolute mode, and within one unit of the last kept decimal place in incremental mode however many lines there are (rounding does not accumulate). This holds for clockwise and counter-clockwise arcs, centre or radius form, every plane, helical motion, every approximation method and either distance mode.",
  ["inputs"],"all arcs, planes, modes, methods, error limits",
  "no test covers linearisation at all",
  [T,U],[("linearize_arc",T),("ArcLinearizeMethod.iter_vertices",T)])
p("C18","Linearised arcs follow the commanded arc within the error limit",
  "Every point of the line moves replacing an arc (of at most one turn, no P word) is within the requested maximum error (or the radius if that is smaller) of the commanded circle, on the commanded side and in the commanded turning direction, never overshooting the end. Height along the plane normal advances in proportion to the angle turned, and the inside / outside / mid methods keep the lines inside, outside or centred on the circle respectively.",
  ["inputs"],"all centre and radius form arcs, all planes, all three methods, all error limits > 0",
  "no test covers linearisation at all",
  [T,U,G],[("ArcLinearizeInside/Outside/Mid radii and wedge angle",T),("linearize_arc centre and angle",T),("plane normals and quaternions",G)])
p("C19","An expanded drilling cycle drills the same holes and ends in the same place",
  "Expanding a drilling or boring cycle gives only rapid moves, feed moves and dwells that drill, for each repeat, one hole at the programmed X/Y down to exactly the programmed depth, cut by feed moves only, and finish at the position the machine reports after executing the cycle itself. Rapids travel sideways only at or above the retract level or the starting height, never rapid below material already cut, and pecks never advance more than the peck increment.",
  ["inputs"],"all cycles G73, G81, G82, G83, G85, G89 with all X, Y, Z, R, Q, L, start positions, both distance modes and both return modes",
  "no test covers expansion at all; depth loops are unbounded",
  [T,G],[("simplify_canned_cycle",T),("GCodeCannedCycle._process",G)])
p("C20","Malformed cycles and arcs are refused with the parameter error",
  "An arc without a destination in X, Y or Z, without centre or radius, with both, or with zero radius is refused with the parameter error before any move is produced, and so is a radius too small to span the end points or a radius arc that ends where it starts (closer than the maximum error). Every other arc is accepted, and expanding a cycle lacking depth, retract level or (for pecking cycles) a non-zero peck increment is refused the same way instead of looping or failing obscurely.",
  ["inputs"],"all parameter subsets and values of arcs and drilling cycles",
  "tests never build an invalid arc or cycle",
  [G,T],[("GCodeArcMove.assert_params",G),("linearize_arc",T),("simplify_canned_cycle",T)])
p("C21","Blanking repeated motion codes never changes what the program does",
  "Passing a code sequence through redundant-mode omission yields the same number of codes in the same order, equal to the originals, with a motion code's text blanked only if the same motion is already active at that point. Executing the printed result line by line moves a machine exactly like the original sequence, and the original codes still print unchanged.",
  ["histories","inputs"],"all code sequences of any length",
  "no test covers it; depends on the whole preceding history",
  [U,G],[("omit_redundant_modes",U),("GCode.__str__ whitespace prefix",G)])
p("C22","Splitting a code list at a code loses and reorders nothing",
  "Splitting a list at a code kind gives three lists whose concatenation is the list (sorted in execution order, stably, unless sorting is off); the middle holds the first code of that kind and nothing else, and if there is none the whole list is in the first part. The input list is not modified.",
  ["inputs"],"all code lists of any length and all splitter kinds",
  "one docstring example",
  [G],[("split_gcodes",G)])
p("C23","Normalising a program does not change what the machine does",
  "The program printed by the normalising tool, with any combination of its splitting, full-mode, comment, blank and whitespace options, drives a machine through the same sequence of positions as the input program and ends with the same position; with arc or cycle expansion it ends each original line at the same position (within rounding).",
  ["programs","configurations"],"all input programs and option combinations",
  "the tool has no tests",
  ["scripts/pygcode-norm",G,U,T],[("write, split_and_process, main loop","scripts/pygcode-norm")])
p("C24","A cropped program resumes exactly where the original would be",
  "The program printed by the cropping tool first brings the machine to the position and modal state the original had just before the first kept line, moving sideways only at the highest level reached so far, and then contains exactly the lines from the first one satisfying the start condition up to (excluding) the first one from there on satisfying the end condition.",
  ["programs","configurations"],"all input programs and crop ranges",
  "the tool has no tests",
  ["scripts/pygcode-crop",M],[("range_type, main loop","scripts/pygcode-crop"),("Machine.__copy__",M)])
p("C25","Plane geometry helpers are exact rotations and projections",
  "Projecting a vector onto a plane removes exactly its component along the normal, for any non-zero normal. The alignment rotations map the given directions onto the target directions and preserve lengths and angles, and each selectable plane's rotation carries the X/Y/Z axes to that plane's first axis, second axis and normal in right-handed order.",
  ["inputs"],"all vectors and all perpendicular direction pairs",
  "tests check a few axis-aligned cases",
  [U,G],[("plane_projection, quat2align, quat2coord_system",U),("GCodePlaneSelect classes",G)])
p("C26","Words compare, hash and sort consistently by letter then value",
  "Two words are equal exactly when letters and values are equal (a text operand is parsed first), equal words have equal hashes, ordering is by letter then value and is total, and letters given in lower case are the same as upper case. Converting a word list to a dictionary keeps each (allowed) letter with its last value.",
  ["inputs"],"all pairs and lists of words",
  "tests compare a few pairs",
  [W],[("Word.__eq__, __hash__, __lt__ ...",W),("words2dict",W)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
