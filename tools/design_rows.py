# property -> how it is decided (contracts), what is bounded or sampled
ROWS = {
 'C01': "Word printed and read back: for every letter class the value is an arbitrary symbolic number (decimal letters: any magnitude, printed through the notation model Fx; code letters; digit-only letters with digit runs of any length; O text); text2words and str2word both run on the symbolic text.",
 'C02': "Loop contract on text2words' while loop: the scan stands at an arbitrary point of an arbitrary ASCII text (unbounded prefix, rest chosen lazily cell by cell, runs of unbounded length) with the invariant 'index is right behind the last word'; the next word / end / refusal equals that of an independent reader, the index makes progress. Texts of any length are covered by induction. Whole texts are additionally sampled.",
 'C04': "words2gcodes / code constructors on every sequence of words drawn from a complete partition of word kinds (a representative of each (letter, parameter-set) class, symbolic values), with each word accounted for once, nearest accepting code, order kept. Sequences longer than the stated length are bounded.",
 'C05': "The LinuxCNC tables are restated in specs/tables.py; for each letter the word value is an arbitrary (symbolic) number: `word_gcode_class` must return exactly the listed class; params, group and rank compared per class; lookups in any order (the cache is part of the state).",
 'C06': "Every code class x every letter, symbolic parameter values; constructor, get/set attribute, get_param_dict, equality.",
 'C07': "Block construction for any number of codes (loop invariant over abstract word and group sets, an arbitrary pair of codes as witness): raises iff two codes repeat a word or share a group; every pair of code classes and triples besides.",
 'C09': "sorted / Block order / process_block: arbitrary code lists up to the stated bound, symbolic ranks; machine final state equal for every permutation.",
 'C10': "Arbitrary modal state (every group, any member), any code: group slot set, all others unchanged; independence through object identity of words; induction over history.",
 'C11': "Arbitrary machine state, bare parameter words with symbolic values against the explicit line; errors iff no motion or unaccepted letter; clean_block.",
 'C12': "Arbitrary position/offset/distance mode, every motion class, every axis subset, symbolic values.",
 'C13': "Arbitrary offsets for all nine systems and temporary offset; conversions inverse; selection frame conditions; set work pos; a machine with no system selected.",
 'C14': "Range invariant lo<=pos<=hi with exact per-axis min/max, arbitrary prior range, each move kind.",
 'C15': "All Position operators for arbitrary axis sets (all subsets), units and coordinates; frame: operands unchanged.",
 'C16': "Arbitrary machine/mode/state/position; copy equal, then an edit or code on either leaves the other unchanged.",
 'C20': "assert_params for all parameter subsets with symbolic values; linearize_arc with a method class that makes no moves: radius arcs (any plane, mode, direction, span, helix) refused for zero radius, a radius too small, an end nearer than the error (ring back end); every well-formed arc of any form, place, size and direction accepted (arcs.Given, as in C18); simplify_canned_cycle for all cycles and parameter subsets. Whole arcs sampled besides.",
 'C22': "split_gcodes on a list of arbitrary length (an abstract sequence with an arbitrary code of the kind somewhere in it, or none; the search loop cut by a frame contract; stable sorting is the language's contract): the parts are exactly three adjoining slices, cut at the first code of the kind. A loop of another form falls back to all lists up to the bound and random ones.",
 'C25': "plane_projection, quat2align, plane quaternions for arbitrary unit vectors and lengths (ring back end); quat2coord_system for any two right-handed coordinate systems (over the proved contract of quat2align), and for all axis-aligned ones with arbitrary lengths without it.",
 'C26': "Word relations for symbolic values and every letter pair; words2dict.",
 'C19': "simplify_canned_cycle from an arbitrary machine (position, retract mode, distance mode, plane XY, pending modal feed, remembered parameters all symbolic), the repeat loop cut by an invariant (holes drilled so far = k increments): both the cycle and its expansion are run by the machine; same holes in order, same dwells, same final position and modal state. Number of repeats unbounded.",
 'C21': "omit_redundant_modes: the loop over the program is cut at an arbitrary iteration with an arbitrary pair (original machine, machine running the output) in the invariant relation; one arbitrary block of each shape re-establishes it, so programs of any length are covered.",
 'C03': "split_line and Line on symbolic lines: up to three comments in brackets and one behind a semicolon, and a macro, each with a text of any length over the printable characters (bounded in the number of comments only; the regexes of the code are run symbolically by pyvc/strre.py). Sampled besides against a character-by-character oracle that knows nothing of the regexes, over generated lines mixing words, unclosed brackets, ';' and macros.",
 'C08': "Every code class with every parameter of symbolic value, printed through the notation model and read back by the real parser on the symbolic text; up to two parameters and all parameters at once; blocks and lines with comments bounded / sampled.",
 'C17': "linearize_arc's loops over the lines are cut at an arbitrary line of an arbitrary number of lines between arbitrary vertices; invariant: what has been moved so far is within half a unit of the last kept place of the current vertex (incremental) or exactly on it (absolute), so rounding cannot accumulate; the last vertex is the commanded end. iter_vertices (loop cut, any number of wedges): line k runs from vertex k to vertex k+1 and the last one ends at the end of the arc. Arcs: any plane, form (R, centre, full), modes, helix, symbolic place, size, direction. Ring back end for the geometry. Kept places 0, 1, 2, 3, 4. Plus sampled whole arcs.",
 'C18': "Three obligations that meet at the method class: 'circle' (linearize_arc hands centre, radius, signed angle and heights of the commanded arc to the method, whatever plane, form and mode; square roots, quaternions and atan2 by the ring back end), 'vertices' (iter_vertices cut at an arbitrary line: vertex k lies at the outer radius, turned k wedges the commanded way, heights in proportion), 'distances' (an arbitrary point t of a first, middle or last line: its distance from the centre is within the error, on the method's side; small polynomial lemmas by nlsat). Any number of lines, any angle up to a turn. Plus sampled whole arcs.",
 'C23': "The script itself (the file in /repo) is run, its input replaced by a feed: a few consecutive lines of each shape with every number symbolic, from an arbitrary state of the machine before each; the machine is run over what was printed and compared (bounded: number of lines and option sets). Whole generated programs under every option combination are sampled besides and compared block by block.",
 'C24': "The script itself is run with a symbolic machine: the lines around the first and last kept line (all shapes in the spec) with symbolic numbers from an arbitrary state; position, modes and lifted moves compared (bounded: number of lines). Generated programs and ranges sampled besides; kept lines compared; the preamble may not contain a stop.",
}
