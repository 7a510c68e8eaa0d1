"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, claimed=claimed,
                  reason=reason))


D = "hftools/dataset/"
F = "hftools/file_formats/"
N = "hftools/networks/"

prop("C01", "Elementwise operations align operands by dimension, not by position",
     "For labelled arrays, every binary operator + - * / ** & | ^ and == (also with the operands swapped, and with plain numbers on either side) yields, at every combination of coordinates, the scalar operation applied to the operands' values at those coordinates, whatever the order of the operands' axes and whichever axes one of them lacks. "
     "The result has exactly the union of the operands' dimensions, in an order fixed by dimension kind first (sweep-like, then repetition, then matrix row, matrix column, then full-complex) and otherwise by first appearance.",
     ["inputs", "programs"],
     "all pairs of labelled arrays (any number, order, overlap and length of sweep, repetition, matrix and anonymous dimensions; real, complex, integer and boolean data), all listed operators, both operand orders",
     "The suite checks a few fixed shapes per operator and most of those comparisons fail in this environment before comparing; alignment depends on the whole space of axis orders and overlaps.",
     [D + "arrayobj.py", D + "dim.py"],
     "make_same_dims/dims_union/change_shape called from the operator wrappers of the array class",
     "reference-model monitor: every operator result compared coordinate by coordinate with a dictionary-of-coordinates model",
     "Held on the random operand pairs executed; trusts numpy scalar arithmetic.")

prop("C02", "Through any program of array operations each value keeps its coordinates",
     "After any sequence of operations on labelled arrays (slicing, indexing, reordering, arithmetic, reductions, copies, views) the result carries one dimension per axis, each dimension is as long as its axis, and the value at given dimension coordinates is the one those operations define on the original coordinates. "
     "Operands that were not assigned to keep their values, dimensions, unit and output format.",
     ["programs", "histories"],
     "all sequences of array operations on all labelled arrays",
     "Unit tests call one operation on one array; the guarantee is about compositions, where a wrong label or an aliased buffer introduced by one step shows up only in a later one.",
     [D + "arrayobj.py", D + "dim.py"],
     "dims bookkeeping of the array class (construction, finalize, view, transpose, getitem, reductions)",
     "history monitor: random operation programs run in lock-step with a labelled reference model, structural invariant and operand-unchanged monitors after every step",
     "Held on the executed programs; operations are those listed in DESIGN.md.")

prop("C03", "Indexing selects the labelled values and labels the selection",
     "Indexing a labelled array with integers, slices (any start, stop, step), an ellipsis, a boolean labelled mask or a labelled integer array yields exactly the selected values, and the remaining dimensions carry the coordinates, kind and unit of the selected points. "
     "The array's unit and output format are preserved, and assignment through integers, slices, an ellipsis, lists or a mask with all the array's dimensions changes exactly the selected elements.",
     ["inputs"],
     "all labelled arrays and all index expressions of the listed kinds, including empty and negative-step selections and masks over any subset of dimensions",
     "Tests cover a dozen literal index expressions on one small array and those comparisons fail here before comparing.",
     [D + "arrayobj.py", D + "dim.py"],
     "array __getitem__ (mask, slice, ellipsis handling) and dimension slicing",
     "reference-model monitor on every index expression executed, read and write",
     "Held on the executed index expressions.")

prop("C04", "Reductions act along exactly the named dimensions",
     "Sum, mean, standard deviation, variance, minimum, maximum, root-sum-square, cumulative sum and product, and squeeze, with the axis given as index, name, dimension object, dimension kind or a list of those, equal the numeric reduction over exactly those axes at every remaining coordinate. "
     "The remaining dimensions keep their order and coordinates (and the reduced ones stay as length-one axes when asked for), and naming an absent dimension is an error or, on request, leaves the array unchanged.",
     ["inputs", "configurations"],
     "all arrays, reductions, axis designations (int, name, object, kind, tuples mixing them), keepdims, dtype and ddof options",
     "The tests for reductions fail in this environment; the product of designations, options and shapes is far beyond what they list.",
     [D + "arrayobj.py"],
     "axis_handler / multiple_axis_handler and the reduction methods",
     "reference-model monitor comparing each reduction with an independent loop over coordinates",
     "Held on executed reductions; floating comparison at 1e-9 relative.")

prop("C05", "Restructuring operations move values without altering or losing any",
     "Transposing, reordering, matrix transposition, adding a dimension, taking along an axis, collapsing repetitions or all trailing axes, bringing arrays to a common set of dimensions, expanding diagonal dimensions, expanding complex numbers to 2x2 real matrices and assembling 2x2 matrices from elements place every input value at exactly the position its coordinates imply and invent none other than documented zeros. "
     "Results that share memory with their operand never address bytes outside it.",
     ["inputs"],
     "all labelled arrays (any mix of dimension kinds and lengths, contiguous or strided) and all listed restructurings",
     "Tests check single examples per function; strides, axis order and dtype combinations decide whether the hand-made strided views are right.",
     [D + "arrayobj.py", "hftools/math.py"],
     "transpose, reorder_dimensions, t, add_dim, take, remove_rep, remove_tail, change_shape, expand_diagonals, make_fullcomplex_array, make_matrix, as_strided/diagonal_view",
     "reference-model monitor plus a memory-bounds monitor (byte extents of every strided view inside its base buffer)",
     "Held on executed cases.")

prop("C06", "Dimension objects behave as immutable values",
     "Two dimensions are equal exactly when kind, name, coordinates and unit agree, equal dimensions hash equal and find each other in sets and dictionaries, and comparison with a plain name compares names; dimensions sort by kind first and then by name. "
     "Building a dimension from another one (optionally overriding coordinates, unit, name or output format) or slicing it copies everything not overridden, never changes the original, and the order of coordinates is preserved.",
     ["inputs", "programs"],
     "all dimension kinds, names, units, formats and numeric, string and date coordinates, all construction and slicing forms",
     "Tests compare a handful of literals.",
     [D + "dim.py"],
     "DimBase construction, equality, ordering, hashing and slicing",
     "model monitor over generated dimension objects (equality/hash laws, construction and slicing against a tuple model, originals unchanged)",
     "Held on generated objects.")

prop("C07", "A data block stays consistent under any history of updates",
     "After any sequence of assigning, replacing, deleting and renaming variables and dimensions, replacing a dimension's coordinates or kind, setting formats, guessing units, copying and viewing, a data block holds exactly the variables last assigned, in first-assignment order, and every variable's dimensions agree in name, coordinates, kind and unit with the block's table of dimensions. "
     "A copy is unaffected by later changes to the original and the original by changes to the copy.",
     ["histories"],
     "all finite sequences of data block operations",
     "Tests apply at most a few operations to fixed blocks; the guarantee is over histories, where an alias or a stale dimension only shows later.",
     [D + "dataset.py", D + "helper.py"],
     "DataBlock/DataDict item and attribute access, rename, replace_dim, set_outputformat, guess_units, copy, view",
     "sequential reference model run in lock-step with random operation histories; block invariant checked after every step",
     "Held on executed histories.")

prop("C08", "Selecting, sorting and regridding a data block keeps rows together",
     "Filtering a block by a condition or by a list of coordinates, sorting it along a dimension, turning flat rows into a multi-dimensional sweep, collapsing repetitions, squeezing and interpolating keep every variable's values attached to the coordinates they had: the multiset of (coordinates, all variables) rows of the result is the selected, permuted or regrouped one of the input. "
     "Variables that do not depend on the affected dimension are unchanged, and the input block is not modified.",
     ["inputs", "programs"],
     "all data blocks with several variables over different subsets and orders of dimensions; all masks, sort keys, sweep permutations and interpolation points",
     "Tests use tiny sorted fixtures; mislabelling appears only for unsorted sweeps, for dimensions that are not first, or for mixed dimension orders.",
     [D + "dataset.py", D + "arrayobj.py", "hftools/utils.py"],
     "DataBlock.filter/sort/hyper/remove_rep/squeeze/interpolate/keep_variables, yield_dim_consistent_datablocks",
     "row-multiset conservation monitor between input and output blocks",
     "Held on executed blocks.")

prop("C09", "Matrix element names read and write the matching matrix entries",
     "For a variable named X in a data block whose last two dimensions are matrix row and column, the element name X followed by row and column digits reads exactly that entry for every sweep point and assigning to it changes exactly that entry. "
     "Splitting all matrices into element variables and recombining the elements restores the matrices.",
     ["inputs"],
     "all matrix sizes up to 9x9, sweep shapes and variable names, including names that are prefixes of each other or contain digits",
     "Tests read two elements of one 2x2 matrix.",
     [D + "dataset.py", F + "readbase.py", F + "common.py", N + "multiports.py"],
     "is_matrix_name, DataBlock item access, convert_matrices_to_elements, matrix assembly in the reader base",
     "reference-model monitor on element reads/writes and on split/recombine round trips",
     "Held on executed cases.")

prop("C10", "Stacked linear algebra equals per-point linear algebra with alignment",
     "Matrix product, inverse, determinant, linear solve and least squares on stacks of matrices give at every combination of sweep coordinates the result of the ordinary operation on the matrices at those coordinates, where operands lacking a dimension are repeated along it and axis order does not matter. "
     "The result carries the union of the sweep dimensions and matrix dimensions of the right size.",
     ["inputs"],
     "all stacks of real or complex matrices with any sweep dimensions, orders and partial overlaps; square for inverse, determinant and solve, compatible rectangular for products and least squares",
     "Tests multiply a few constant stacks.",
     ["hftools/math.py", D + "arrayobj.py"],
     "matrix_multiply, inv, det, solve_Ab, lstsq, broadcast_matrices",
     "per-slice numpy oracle over every coordinate combination",
     "Trusts numpy.linalg per slice; tolerance scaled with condition number.")

prop("C11", "Phase, level and delay functions obey their definitions",
     "Angles lie in the requested branch and reproduce the number's direction; unwrapped phase equals the angle modulo a full turn and never jumps by more than half a turn along the sweep; decibel, magnitude-angle and real-imaginary conversions are mutual inverses; group delay of a linear-phase response is the slope; small values and only those are chopped. "
     "Dimensions of the input are kept.",
     ["inputs"],
     "all non-zero complex data over any sweeps, degrees or radians, every branch start, all magnitudes",
     "Tests evaluate a few points; branch cuts, long phase ramps and multi-dimensional data are not reached.",
     ["hftools/math.py", "hftools/utils.py"],
     "angle, unwrap_phase, continous_phase_sqrt, delay, dB, dBinv, *_to_complex, chop",
     "definition monitors (algebraic laws checked pointwise) over generated sweeps incl. branch-cut values",
     "Floating comparison away from exact half-turn ties.")

prop("C12", "Interpolation and smoothing reproduce what they promise",
     "Piecewise-linear interpolation passes through its nodes, is linear between neighbours and rejects points outside the data range, while the extrapolating variant continues the end segments; moving-average smoothing over an odd window gives at each point the mean of the symmetric window that fits and leaves end points unchanged; polynomial smoothing reproduces polynomials up to its degree. "
     "Interpolating a labelled array onto new coordinates keeps all other dimensions, unit and format and is exact at existing coordinates.",
     ["inputs"],
     "all strictly increasing sample grids, query points (nodes, between, ends, outside), data dimensions, apertures and degrees",
     "Tests check one line and one grid.",
     ["hftools/math.py", D + "dataset.py"],
     "interpolate, linear_extrapolate, smooth, smooth_magphase, poly_smooth, dataset interpolate",
     "independent pointwise oracle (numpy) over generated grids and queries",
     "Trusts numpy.interp/polyfit.")

prop("C13", "Numbers with units are read and printed without changing their value",
     "A textual number with an optional SI-prefixed unit parses to number times prefix with the base unit, in every numeric notation (signs, decimals, exponents) and with or without spaces and brackets; a percent sign means one hundredth. "
     "Formatting a number in engineering notation prints a mantissa and SI prefix whose product is the number to the printed precision.",
     ["inputs"],
     "all finite numbers in the range of the SI prefixes, all notations, prefixes, known and unknown units, digit counts",
     "Tests parse a dozen strings; exponents, boundary mantissas and large prefixes are not among them.",
     ["hftools/constants/si_units.py", D + "comments.py", F + "common.py"],
     "unit_to_multiplier, string_number_with_unit_to_value, convert_with_unit, format_number, SIFormat",
     "independent parser/printer oracle, round-trip monitor",
     "Unit strings are SI prefix + known unit, or unknown units taken verbatim.")

prop("C14", "Natural ordering, uniqueness and numeric conversion helpers are exact",
     "File lists are returned in natural order (digit runs compared as numbers, otherwise lexically) as a permutation of the input, so that numbered files never come out of sequence; order-preserving and sorted uniqueness return each distinct element once; nested lists flatten in order; strings convert to integer, float or date exactly when they denote one. "
     "The waveguide table relates cut-off frequencies and dimensions consistently.",
     ["inputs"],
     "all lists of strings mixing text and digit runs, all nested lists, all strings",
     "Tests sort two lists.",
     ["hftools/utils.py", "hftools/constants/waveguide.py", "hftools/_external/path.py"],
     "lex_order/glob, stable_uniq, uniq, flatten, to_numeric, waveguide table",
     "independent oracle monitors over generated inputs and scratch directories",
     "Held on generated inputs.")

prop("C15", "Network parameter conversions describe the same physical network",
     "Converting between Z, Y, S, G, H, ABCD, T and T' parameters yields a matrix whose defining port equations are satisfied by exactly the same voltages and currents (waves in the reference impedance of the array) as the original, for every sweep point independently. "
     "Hence all conversion paths agree, converting back restores the matrix, and the source array is unchanged.",
     ["inputs", "programs"],
     "all well-conditioned networks (1..4 ports for Z, Y and S, two-ports for the others), all reference impedances, all chains of conversions, any sweep dimensions",
     "Tests convert a few constant matrices and many of those tests fail here before comparing.",
     [N + "multiports.py", "hftools/math.py"],
     "convert, the P matrices of the parameter classes, class constructors",
     "port-equation oracle: random port excitations substituted in source and destination equations after every conversion of random chains",
     "Well-conditioned networks only (condition checked by the generator); tolerance 1e-7 relative.")

prop("C16", "Cascading and de-embedding are exact inverses with the right topology",
     "Cascading two-ports equals multiplying their chain matrices, in the given order and for any number of sweep dimensions, is associative and has the perfect through as neutral element. "
     "De-embedding left, right or both sides of a cascade returns the embedded two-port, in whatever parameter representation it is given and with operands aligned by dimension (scattering data in 50 ohm).",
     ["inputs", "programs"],
     "all non-degenerate two-ports and parameter classes, any sweep-dimension subsets and orders of the operands, real and complex data",
     "Tests use three constant networks with real, symmetric, reflection-free values.",
     [N + "spar_functions.py", N + "multiports.py"],
     "cascadeS, deembedleft/right, deembed, cascade/deembed methods",
     "chain-matrix oracle computed independently per sweep point",
     "Non-degenerate operands; tolerance 1e-7.")

prop("C17", "Noise data describe the same noisy two-port in every representation",
     "Building a noisy two-port from minimum noise factor, optimum reflection and noise resistance and extracting them again returns the same values; converting the representation does not change the extracted parameters; a passive two-port at the reference temperature has the noise factor equal to its available loss for every source. "
     "Correlation matrices stay Hermitian.",
     ["inputs", "programs"],
     "all physical noise parameters, all well-conditioned two-ports, all conversion chains among the supported representations, any ambient temperature",
     "No test exercises the noise module.",
     [N + "noise.py", N + "multiports.py"],
     "from_noisepar, NoisyTwoport.convert, noise_parameters, passive_noise, Hconj",
     "noise-factor oracle evaluated for random sources; round-trip and conversion-invariance monitor",
     "Physical parameters only.")

prop("C18", "Passivity and reciprocity enforcement does what it says and no more",
     "The passivity measure of each sweep point is the largest eigenvalue magnitude; enforcing passivity leaves passive points untouched and makes every point passive (by singular values: none above one; by eigenvalues: none of magnitude above one); enforcing reciprocity yields equal transmission in both directions whose product is preserved and whose phase continues the original forward branch, leaving reflections unchanged. "
     "Each sweep point is treated independently.",
     ["inputs"],
     "all two-port (and N-port for passivity) scattering data with non-zero transmission; one sweep dimension for the eigenvalue functions",
     "No test exercises these functions.",
     [N + "spar_functions.py"],
     "make_passive_svd, make_passive_eig, check_passive, make_reciprocal",
     "singular-value/eigenvalue oracle per sweep point",
     "Held on generated data.")

prop("C19", "Touchstone files are read and written without altering the data",
     "Reading a Touchstone file returns the frequencies in Hz and, at each frequency, the N-port matrix encoded by the file, for every data format, frequency unit, parameter type, port count, line wrapping, comment placement and optional noise section (option line in standard order, reference resistance given). "
     "Writing scattering data and reading it back restores frequencies, matrices and comment properties, and a malformed file is rejected.",
     ["inputs", "configurations"],
     "all valid Touchstone version 1 files within the documented grammar; all N-port blocks",
     "Tests read a fixed set of sample files, most of which fail here before comparing.",
     [F + "touchstone.py", F + "readbase.py", F + "common.py"],
     "touchstone tokenizer, row assembly, port/noise detection, saver",
     "independent serializer writes random networks in random dialects, oracle compares what the reader returns; save/read round-trip monitor",
     "Dialects are those in DESIGN.md.")

prop("C20", "CITI files are read and written without altering the data",
     "Reading a CITI file returns every declared sweep list and data array with its values, in real, real-imaginary and magnitude-angle formats, with comments anywhere; a malformed file is rejected. "
     "Writing a block whose variables depend on all its sweeps (or are real scalars) and reading it back restores its variables, sweeps, name and comments.",
     ["inputs", "configurations"],
     "all CITI files with any number of swept variables, data arrays, explicit or segmented sweep lists and comments",
     "Tests read a few sample files and most fail here before comparing.",
     [F + "citi.py", F + "readbase.py", F + "common.py"],
     "CITI tokenizer/parser and saver",
     "independent serializer plus save/read round-trip monitor",
     "Dialects are those in DESIGN.md.")

prop("C21", "MDIF files are read and written without altering the data",
     "Reading an MDIF file returns every block with its header variables and columns attached to the right sweep point, and merging its blocks yields the full multi-dimensional sweep; blocks of one name whose columns or sweeps do not fit are refused. "
     "Writing a block and reading it back restores variables, coordinates and comments.",
     ["inputs", "configurations"],
     "all MDIF files with any number of blocks, VAR headers, attribute and data rows in the supported dialect",
     "Every MDIF reading test fails in this environment.",
     [F + "mdif.py", F + "readbase.py", F + "common.py", F + "merge.py"],
     "MDIF tokenizer, block grouping, formatter",
     "independent serializer plus save/read round-trip monitor",
     "Dialects are those in DESIGN.md.")

prop("C22", "Tabular measurement text files are read and written without altering data",
     "Reading a tab-separated measurement table returns every column under its name with its values and unit, combines real/imaginary and magnitude/angle column pairs into complex variables and element columns into matrices, and keeps header comments as properties. "
     "Writing a block of any sweep dimensions and reading it back restores it.",
     ["inputs", "configurations"],
     "all tables with any column names, units, number formats and comments, and all blocks whose sections share columns and sweep, in the supported dialect (numeric first column, no boolean or complex scalars)",
     "Tests read a few sample files; most fail here before comparing.",
     [F + "spdata.py", F + "readbase.py", F + "common.py"],
     "SP-data tokenizer/parser, saver, reader base",
     "independent serializer plus save/read round-trip monitor",
     "Dialects are those in DESIGN.md.")

prop("C23", "HDF5 storage returns exactly what was stored, including after appends",
     "Saving a data block and reading it back restores all variables bit for bit with their data type, dimensions, coordinates, units, output formats and comments. "
     "After any sequence of appends to an expandable file, reading returns the rows of all appended blocks in order; a block that does not fit is refused and leaves the file as it was.",
     ["histories", "inputs"],
     "all data blocks (real, complex, integer, boolean, string and date data, any dimensions and names without backslash) and all append sequences; the old file version for numeric data only",
     "Tests store a few fixed blocks.",
     [F + "hdf5/v_01.py", F + "hdf5/v_02.py", F + "hdf5/hdf5.py", F + "hdf5/helper.py"],
     "HDF5 save/read/append",
     "round-trip and append-history monitor in scratch directories",
     "Trusts the h5py library.")

prop("C24", "Format detection and reading options never change what is read",
     "The general reader picks the format the file is written in and returns what the specific reader returns; reading several files at once gives the merge of reading each; the cached read returns the same data on first and later use. "
     "Reading options (complex assembly, matrix assembly, unit guessing, property conversion, name normalisation) transform only what they name.",
     ["inputs", "configurations", "histories"],
     "all files of the supported formats, all option combinations, any sets of text files of one format and repeated cached reads",
     "Tests read single fixture files with default options.",
     [F + "__init__.py", F + "readbase.py", F + "common.py", D + "dataset.py"],
     "read_data dispatch, ReadFileFormat pipeline, read_to_cache",
     "differential monitor between entry points and option settings",
     "Held on generated files.")

prop("C25", "Merging blocks loses, duplicates and reorders nothing",
     "Merging data blocks that hold the same variables stacks them along a new dimension so that every block's values appear exactly once, in input order, with the scalar settings of each block attached to its rows; with the multi-dimensional option the settings become sweep coordinates (dimensions of length one may be dropped). "
     "Blocks are not modified, blocks whose sweeps differ are refused, and a variable or setting that only some blocks have keeps its own row numbers.",
     ["inputs", "histories"],
     "all lists of data blocks with any scalar settings, orders and permutations",
     "Tests merge two or three literal blocks.",
     [F + "merge.py", D + "dataset.py"],
     "merge_blocks and helpers",
     "conservation monitor over unique-valued blocks (every input value appears exactly once at its coordinates)",
     "Held on generated block lists.")

prop("C26", "Header comments become properties and survive",
     "Every header comment of the form name, optional bracketed unit, colon or equals sign, value becomes a property with the numeric value in base units, date or text it denotes; later lines override earlier ones and other comments are retained verbatim. "
     "Extending and copying comment sets combines properties without altering the sources.",
     ["inputs", "histories"],
     "all comment lines and sequences of add, extend and copy",
     "Tests parse a list of sample comments.",
     [D + "comments.py", F + "common.py", "hftools/constants/si_units.py"],
     "process_comment, Comments",
     "independent comment oracle and sequential model",
     "Comment lines from the grammar in DESIGN.md.")

prop("C27", "Configuration look-up follows lexical scoping and keeps values",
     "Looking up a name in a configuration section returns the value of the innermost enclosing section that defines it; values with SI units, percentages, time intervals and nested sections are converted as written; and sections are restored by saving and loading. "
     "Changing a section never affects others that are not nested in it.",
     ["inputs", "histories"],
     "all nested configurations and sequences of set, get and delete",
     "Tests use two fixed configurations.",
     [F + "config.py", D + "dim.py"],
     "config parsing and scoped lookup",
     "nested-dictionary reference model, random histories and texts",
     "Held on generated configurations.")

prop("C28", "Plots show the transformed data at the right coordinates",
     "Plotting a labelled array in a given projection draws exactly one line per combination of the remaining dimensions, with the independent coordinates on x and the projection's function of the data (decibel, magnitude, phase, unwrapped phase up to whole turns, real, imaginary, group delay, polar, complex) on y. "
     "Axis labels and tick prefixes multiply out to the plotted values; figure helpers (legends, ticks, axis widths, saving, multi-page documents) do what they say to the figure they are given.",
     ["inputs", "configurations"],
     "all arrays, projections and axis units",
     "Plot tests compare saved figures and fail here.",
     ["hftools/plotting/helper.py", "hftools/math.py"],
     "projection classes, unit-aware axes",
     "line-data monitor on real axes (Agg) against an independent projection oracle",
     "Trusts matplotlib line storage.")

prop("C29", "Smith chart geometry matches the impedance-reflection mapping",
     "Every point on a constant resistance, reactance, conductance or susceptance curve of the Smith chart maps back to that value, the impedance and admittance transforms are inverses, and curves end where they meet the limiting curves. The ready-made charts draw the grid values 0, 1/3, 1 and 3 (and their negatives) in the half they are made for and keep them visible.",
     ["inputs"],
     "all finite resistances and conductances from zero upward, all finite reactances and susceptances, all end-point combinations in either order",
     "Tests check a few literal points.",
     ["hftools/plotting/smith.py"],
     "circle and arc construction, z2gamma/y2gamma transforms",
     "bilinear-map oracle over sampled curve points",
     "Floating tolerance near infinity points.")

prop("C30", "Operations leave their inputs alone",
     "Functions and methods that return a new array, block, network or file do not change the values, dimensions, units, formats, names or comments of their arguments; only explicit assignment and documented in-place updates do. "
     "Saving a block to any format leaves it as it was, and results of computations and copies own their data: changing them does not reach back.",
     ["inputs", "programs"],
     "all public value-returning operations of the package and all inputs",
     "Tests hardly ever look at the inputs again.",
     [D + "arrayobj.py", D + "dataset.py", "hftools/math.py", N + "multiports.py", N + "spar_functions.py", N + "noise.py", F + "common.py", F + "merge.py"],
     "all value-returning operations",
     "deep-snapshot purity monitor around every public operation",
     "Snapshot covers array bytes, dims, unit, outputformat, block tables and comments.")

prop("C31", "Printed reports tell what blocks, arrays and comment sets hold",
     "The printed form of a data block lists its name, every variable with unit and shape and every dimension with its length and smallest and largest coordinate (in SI prefixes, dates as dates) or data type, in order, in any layout, with the report options and at any point of its history. "
     "Printed arrays, dimensions and tables of comments show the class, shape, values and properties of what is printed, and printing changes nothing.",
     ["inputs", "histories", "configurations"],
     "all blocks with numeric (any magnitude), integer, date, text, boolean, complex or empty coordinates, any units; all report widths and options; all arrays and comment sets",
     "Tests compare the report of one or two literal blocks.",
     [D + "dataset.py", D + "arrayobj.py", D + "dim.py", D + "comments.py", F + "common.py", "hftools/constants/si_units.py"],
     "DataBlock.report/ivar_report/depvar_report/format_table, __repr__ methods, help, Comments.table",
     "independent report parser compared with the block after every step of random histories",
     "Column layout, digits beyond the twelfth and the unit of integer coordinates are unspecified.")

prop("C32", "MATLAB sweep files are read with every value at its point",
     "Reading a MATLAB file with a muwave sweep returns the scattering matrix (and its covariance, if present) for every frequency and point of the sweep, with the state, the measurement properties (numbers, texts, dates; empty ones dropped on request) and the reference impedance of each point, bias voltages and currents with their units; several files add a file number. "
     "Other MATLAB files and missing files are refused.",
     ["inputs", "configurations"],
     "all sweeps of scattering data with any number of points, frequencies, ports and files and any properties that are single numbers or texts",
     "No test reads such a file.",
     [F + "muwave_mat.py", F + "merge.py", F + "__init__.py"],
     "read_muwave_matlabdata, build_data and helpers, merge_blocks",
     "independent generator of MATLAB files, per-value lookup monitor",
     "File structure as understood from the reader; dimensions of length one may be dropped.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=p["mechanism"]))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    built = lambda p: os.path.exists(os.path.join(
        HERE, "hfmon", "checks", p["id"].lower() + ".py"))
    checks, na = [], []
    for p in P:
        if p["claimed"] and built(p):
            checks.append(dict(
                property=p["id"],
                quick_cmd="bin/check %s --tier quick" % p["id"],
                thorough_cmd="bin/check %s --tier thorough" % p["id"],
                technique=p["technique"], level="exploration",
                level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["reason"] or
                           "check not built yet"))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="No hooks in /repo: all monitors sit at the public API.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
