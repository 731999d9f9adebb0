# -*- coding: utf-8 -*-
"""The properties and what decides them (source of properties.jsonl and
MANIFEST.json)."""

TECHNIQUE = ("stateless exhaustive exploration of the real code (all choice "
             "sequences within stated bounds) against a reference model")
NOTES = ("Every check runs bin/check <id>: mc/engine.py enumerates every "
         "choice sequence of the property's spaces (mc/props/<id>.py) "
         "against the code imported from /repo's working tree; no sampling, "
         "no seed dependence, no caps.")

PROPS = []


def prop(**kw):
    PROPS.append(kw)


prop(
    id="C01",
    title="Elementwise operators align operands by dimension, never by position",
    statement="For any two labelled arrays, every elementwise binary operator "
    "(arithmetic, comparison, boolean, reflected and in-place forms) returns "
    "at each coordinate the operator applied to the operands' values at that "
    "coordinate, over the union of their dimensions ordered sweep, "
    "repetition, matrix row, matrix column and, within each, as they first "
    "appear. The order in which each operand "
    "stores its dimensions never matters, scalars combine with every element, "
    "the result dtype is the numpy promotion of both, and the operands are "
    "not modified (except the target of an in-place operator).",
    over=["inputs", "histories"],
    quant="all pairs of arrays (dimension sets, dimension orders, lengths, "
    "dtypes, scalar operands), all operators, all chains of operators",
    why="Tests combine a few hand written arrays; the alignment paths depend "
    "on which dims are shared, their order and class on both sides, which is "
    "a product of orders no test list covers.",
    files=["hftools/dataset/arrayobj.py", "hftools/dataset/dim.py"],
    mech=[("make_same_dims / make_same_dims_list / change_shape",
           "hftools/dataset/arrayobj.py"),
          ("operator methods of _hfarray", "hftools/dataset/arrayobj.py"),
          ("dims_has_complex, sort priority of dims",
           "hftools/dataset/dim.py")],
    observe=["hftools.dataset.hfarray operators"],
    note="Exhaustive over ordered subsets (<=3 of 5 dims per operand, quick) "
    "x 16 operators x in-place x dtype pairs x scalar kinds, and over "
    "operator chains; element-wise reference model in plain Python. Values "
    "outside the small alphabet are not covered.")

prop(
    id="C02",
    title="Elements keep their coordinate labels through structural operations",
    statement="After any sequence of indexing, slicing, masking, taking, "
    "transposing, reordering, squeezing, adding or replacing dimensions and "
    "copying, every element of a labelled array carries exactly the labels of "
    "the element of the original array it came from. The array's and the "
    "surviving dimensions' unit and output format are kept, the number and "
    "lengths of dimensions always match the data, and the operand is left "
    "unchanged.",
    over=["histories", "inputs"],
    quant="all sequences of structural operations with all index forms on "
    "arrays of any dimensionality",
    why="Tests index a few arrays once; labels and data are updated by "
    "separate code so they can drift apart for an index form, an axis or a "
    "second operation nobody wrote a test for.",
    files=["hftools/dataset/arrayobj.py", "hftools/dataset/dim.py"],
    mech=[("__getitem__, take, squeeze, transpose, t, reorder_dimensions, "
           "add_dim, replace_dim, __array_finalize__",
           "hftools/dataset/arrayobj.py"),
          ("dim slicing", "hftools/dataset/dim.py")],
    observe=["hfarray methods", "hfarray.dims", "hfarray.unit"],
    note="All sequences of 2 operations over the full alphabet and 3 over a "
    "core alphabet from 5 initial arrays (plus every index tuple in every "
    "spelling) against a provenance model; methods numpy provides and "
    "hfarray does not define are not covered.")

prop(
    id="C03",
    title="Reductions remove exactly the designated dimensions",
    statement="Sum, mean, std, var, min, max, rss and the cumulative "
    "operations over any designation of axes (index, negative index, name, "
    "dimension object, dimension class, tuples mixing these, or nothing) "
    "reduce exactly the designated dimensions and give, at each remaining "
    "coordinate, the statistic of the elements there; keepdims and ddof are "
    "honoured. Remaining dimensions keep order and labels, designating an "
    "absent dimension is an IndexError unless asked to be ignored, and "
    "reducing dimensions one by one agrees with reducing them together.",
    over=["inputs", "histories"],
    quant="all arrays, all axis designations (alone and combined), all "
    "reductions",
    why="Tests sample one designation per reduction on one array; the "
    "translation from designation to axis number is what can go wrong, for "
    "some order, class or combination.",
    files=["hftools/dataset/arrayobj.py"],
    mech=[("multiple_axis_handler / axis_handler / _axis_names",
           "hftools/dataset/arrayobj.py")],
    observe=["hfarray.sum/mean/std/var/min/max/rss/cumsum/cumprod",
             "np.sum/mean/min/max on hfarrays"],
    note="Exhaustive over ordered subsets of 6 dims (<=3), every axis and "
    "pair/triple of axes, every designation mix, float/int/complex data, "
    "against statistics computed element by element.")

prop(
    id="C04",
    title="Dimension objects behave as immutable values",
    statement="A dimension object never changes after construction, whatever "
    "is done to its source data or to arrays made from it; it keeps exactly "
    "the labels, name, unit and output format it was given, or inherits those "
    "not given from the dimension it is made from. Dimensions are equal "
    "exactly when class, name, labels, unit and given output format "
    "agree, equal dimensions have equal hashes, lookup and "
    "membership in dimension tuples follow class and name, and sorting puts "
    "sweeps before repetitions before matrix rows before matrix columns.",
    over=["inputs", "histories"],
    quant="all dimension classes, data forms, attribute combinations and "
    "pairs of dimensions",
    why="Equality, hashing and inheritance of attributes are relations over "
    "pairs and over optional attributes; tests check a handful of pairs.",
    files=["hftools/dataset/dim.py", "hftools/dataset/arrayobj.py"],
    mech=[("DimBase construction, __eq__, __hash__, __lt__, __getitem__",
           "hftools/dataset/dim.py"),
          ("Dims container", "hftools/dataset/arrayobj.py")],
    observe=["hftools.dataset.Dim* classes", "hfarray.dims"],
    note="All pairs over class x name x data x unit x format, all override "
    "combinations over all 12x12 class pairs, all data forms; attribute-level "
    "oracle.")

prop(
    id="C05",
    title="Network parameter conversions describe the same network",
    statement="Converting a multiport between Z, Y, S, T, ABCD, H, G and "
    "noise-free representations, directly or along any chain, describes the "
    "same electrical network at every coordinate: currents and voltages at "
    "the ports allowed before are exactly those allowed after, for any number "
    "of ports the representation is defined for, any reference impedance, "
    "matrix labels, dtype and dimension order. Outer labels and the reference "
    "impedance are kept, the converted source is not modified, undefined "
    "conversions raise instead of returning numbers, and element accessors "
    "(X11, X12, ..) read and write exactly the named element.",
    over=["inputs", "histories"],
    quant="all networks, representations, chains of conversions, reference "
    "impedances, port counts and layouts",
    why="Tests convert one network per pair and compare with stored numbers; "
    "chains, reference impedances and layouts multiply beyond any list.",
    files=["hftools/networks/multiports.py",
           "hftools/networks/spar_functions.py"],
    mech=[("convert, X2Y dispatch, _MultiPortArray", 
           "hftools/networks/multiports.py")],
    observe=["hftools.networks.multiports *Array classes"],
    note="All conversion chains (length 2 quick / 3 thorough) over 8 "
    "representations from reference networks, 1..4 ports, histories of "
    "Z0/renormalise/convert; oracle solves the port equations in plain "
    "Python complex arithmetic.")

prop(
    id="C06",
    title="Cascading and deembedding follow the two-port chain rule",
    statement="Cascading two-ports, as methods or functions, in any "
    "representation, any number and association, gives the network of the "
    "chained two-ports; deembedding a left and/or right network from a "
    "cascade gives back the remaining network. Real and complex operands, "
    "different representations and reference impedances and different outer "
    "dimensions may be mixed and operands are not modified. make_passive_* "
    "give passive networks and leave passive ones alone, make_reciprocal "
    "gives a reciprocal network with the same transmission product and "
    "sign.",
    over=["inputs", "histories"],
    quant="all sequences of two-ports, representations, outer dims, dtypes "
    "and reference impedances",
    why="The identities are universally quantified over networks and over "
    "the association order; tests use one fixed pair.",
    files=["hftools/networks/spar_functions.py",
           "hftools/networks/multiports.py"],
    mech=[("cascadeS, deembedleft, deembedright, make_passive_svd/eig, "
           "make_reciprocal", "hftools/networks/spar_functions.py"),
          ("cascade, deembed", "hftools/networks/multiports.py")],
    observe=["cascade/deembed methods", "hftools.networks.spar_functions"],
    note="All pairs of representations x dims x Z0, 2..4 networks in all "
    "orders and both associations, all dim layouts; oracle is plain ABCD "
    "chain multiplication. Passivity uses numpy singular values.")

prop(
    id="C07",
    title="Matrix algebra acts matrix by matrix at each coordinate",
    statement="matrix_multiply, inv, det, solve_Ab, lstsq, make_matrix and "
    "broadcast_matrices on labelled arrays treat the matrix row and column "
    "dimensions as the matrix, wherever they are stored, and combine the "
    "matrices found at the same outer coordinate, over the union of the outer "
    "dimensions. Rectangular matrices and vectors, real, integer and complex "
    "elements may be mixed without losing the imaginary part; rows and "
    "columns of results carry the labels of the factors they come from.",
    over=["inputs"],
    quant="all matrix sizes, outer dims, dim orders, dtypes and labels",
    why="Tests multiply a few square matrices with equal dims; broadcasting "
    "and labelling depend on the combination of outer dims and sizes.",
    files=["hftools/math.py"],
    mech=[("matrix_multiply, inv, det, solve_Ab, lstsq, make_matrix, "
           "broadcast_matrices", "hftools/math.py")],
    observe=["hftools.math"],
    note="All 10 outer-dim combinations x sizes x dtypes x dim orders against "
    "plain nested-list matrix arithmetic (product, Laplace determinant, A x = "
    "b, normal equations).")

prop(
    id="C08",
    title="A DataBlock stays a consistent set of labelled variables",
    statement="After any sequence of operations on a data block (setting, "
    "deleting and renaming variables and dimensions, replacing dimensions, "
    "sorting, filtering, squeezing, hypercubing, collapsing repetitions, "
    "interpolating, selecting variables, guessing units, setting formats, "
    "copying), every variable holds exactly the values, labels, unit and "
    "format the operations imply, all variables agree with the block's "
    "dimensions, and names, order, block name, comments and the name of the "
    "x axis are kept. Element names like "
    "S12 access exactly that matrix element and no other name touches a "
    "matrix; values that do not form a hypercube are refused. Operations that "
    "return a new block leave the source unchanged, also when the result is "
    "later modified.",
    over=["histories", "inputs"],
    quant="all sequences of block operations from any block",
    why="Each operation updates variables and dimensions separately; "
    "consistency is a property of sequences of operations and of the mixture "
    "of variable shapes, tests run single operations.",
    files=["hftools/dataset/dataset.py", "hftools/dataset/arrayobj.py",
           "hftools/dataset/helper.py"],
    mech=[("DataBlock methods, interpolate, convert_matrices_to_elements, "
           "change_dim", "hftools/dataset/dataset.py"),
          ("remove_rep", "hftools/dataset/arrayobj.py")],
    observe=["hftools.dataset.DataBlock"],
    note="All sequences of 2 operations over the full alphabet (~60-90 per "
    "state) and 3 over the core alphabet from 5 initial blocks, every block "
    "of the history re-checked after every step, against a dictionary of "
    "labelled cells.")

prop(
    id="C09",
    title="DataDict is a dictionary that keeps the order of its keys",
    statement="Any sequence of dictionary operations on a DataDict (item and "
    "attribute access, deletion, setdefault, update, pop, popitem, clear, "
    "rename, copy, view) behaves as on an insertion-ordered dictionary: all "
    "ways of listing keys and values agree with each other, a renamed entry "
    "keeps its place, and missing keys raise KeyError or AttributeError.",
    over=["histories"],
    quant="all sequences of dictionary operations",
    why="The key order is stored beside the dictionary and must be kept in "
    "step by every operation in every order.",
    files=["hftools/dataset/dataset.py"],
    mech=[("class DataDict", "hftools/dataset/dataset.py")],
    observe=["DataBlock.vardata", "DataBlock.ivardata"],
    note="All sequences of 3 (thorough 4) of 25 operations from 3 starting "
    "points against a Python dict. The order of items given to the "
    "constructor is unspecified.")

prop(
    id="C10",
    title="Copies are independent and arguments are not modified",
    statement="Whatever is done to a copy of an array, multiport, data block "
    "or comments object leaves the original unchanged, and the reverse; "
    "objects derived without copying (views, filtered or sorted blocks) share "
    "at most elements and comments, never names, dimensions, units or "
    "formats. Functions of hftools return results without modifying the "
    "arrays, blocks or lists passed to them.",
    over=["histories", "inputs"],
    quant="all ways to derive an object x all sequences of mutations on "
    "either side; all library functions",
    why="Aliasing only shows when a later operation mutates one side; tests "
    "rarely look at the other object afterwards.",
    files=["hftools/dataset/arrayobj.py", "hftools/dataset/dataset.py",
           "hftools/file_formats/common.py", "hftools/math.py",
           "hftools/networks/spar_functions.py"],
    mech=[("copy, view, __array_finalize__", "hftools/dataset/arrayobj.py"),
          ("DataBlock.copy/view and derived blocks",
           "hftools/dataset/dataset.py"),
          ("Comments", "hftools/file_formats/common.py")],
    observe=["copies and originals after mutation"],
    note="All (derivation, mutation, mutation) triples on both sides for 7 "
    "arrays and a block, plus argument fingerprints around 50 functions.")

prop(
    id="C11",
    title="SP-data files hold what was saved and what they say",
    statement="A data block saved with save_spdata and read with read_spdata "
    "(or read_data) comes back with the same values at the same labels, the "
    "same real, complex and matrix variables, units (converted to SI) and "
    "comment lines; outer dimensions come back as index variables, or as "
    "dimensions with hyper=True. Saving and reading repeatedly changes "
    "nothing, and saving does not modify the block. Files written by others "
    "are read according to their header: units in brackets, Re/Im and "
    "Mag/Arg pairs, matrix elements, repeated columns and properties in "
    "comments. A file whose table is incomplete (missing or surplus fields, "
    "text where the header promises numbers) is refused, not read as less.",
    over=["inputs", "histories"],
    quant="all combinations of sweep, outer dimensions, kinds of variables, "
    "units, formats, comments, targets and reader options; all header and "
    "number spellings",
    why="The effects of units, matrices, outer dimensions and merging combine; "
    "the tests compare a few saved files and never read them back.",
    files=["hftools/file_formats/spdata.py", "hftools/file_formats/common.py",
           "hftools/file_formats/readbase.py",
           "hftools/file_formats/merge.py"],
    mech=[("save_spdata, read_spdata", "hftools/file_formats/spdata.py"),
          ("db_iterator, make_block_iterator",
           "hftools/file_formats/common.py"),
          ("make_cplx, fix_unit, matrix elements",
           "hftools/file_formats/readbase.py")],
    observe=["files written", "data blocks read"],
    note="5 sweeps x 6 outer dimension sets x ordered pairs of 10 variable "
    "kinds x hyper; comments, file objects, names; three save/read cycles; "
    "all subsets of 6 variables over different dimensions; 39 424 foreign "
    "files; element and repeated columns.")

prop(
    id="C17",
    title="Merged blocks and files keep every value with its origin",
    statement="Merging data blocks, and reading several files or files with "
    "several blocks, puts every value of every block at the index of its own "
    "block: index variables, file names, properties and data along an index "
    "dimension all describe the same block, whatever the order of blocks, "
    "files and index names. Blocks that do not fit together (other labels, "
    "missing variables, incomplete hypercubes) are refused instead of being "
    "mixed up; fitting blocks are always merged, and the merged blocks are "
    "not modified.",
    over=["inputs", "histories"],
    quant="all lists of blocks (index names, variables, labels, units) and "
    "all orders of blocks and files",
    why="Wrong association of blocks gives plausible numbers; tests merge "
    "regular blocks in regular order only.",
    files=["hftools/file_formats/merge.py",
           "hftools/file_formats/readbase.py", "hftools/utils.py"],
    mech=[("merge_blocks", "hftools/file_formats/merge.py"),
          ("ReadFileFormat.read_file", "hftools/file_formats/readbase.py"),
          ("hyper", "hftools/dataset/dataset.py")],
    observe=["merge_blocks", "read_spdata, read_touchstone, read_citi"],
    note="All pairs and triples of blocks over 5 index sets x 4 variable sets "
    "x 3 sweeps, all orders of hypercubes up to 6 (thorough 8) blocks, 1-3 "
    "files of 1-3 blocks in three formats by pattern or list.")

prop(
    id="C12",
    title="Touchstone files hold what was saved and what they say",
    statement="S-parameters of any number of ports saved with save_touchstone "
    "and read with read_touchstone (or read_data) come back with the same "
    "elements at the same frequencies (in Hz), the same reference impedance, "
    "scalar variables and comment lines, whatever the order of the "
    "dimensions; repeating this changes nothing and saving does not modify "
    "the block. What does not fit is refused with TouchstoneError and leaves "
    "an existing file alone. Files by others are read according to the "
    "option line (frequency unit, parameter, RI/MA/DB, R or its default of "
    "50 Ohm), the two-port column order, wrapped lines, comments and noise "
    "parameters. Files that do not hold one complete table are refused, "
    "never misread.",
    over=["inputs", "histories", "faults"],
    quant="all combinations of ports, frequency axes, kinds, orders of "
    "dimensions, impedances, comments, scalars; all option lines and layouts; "
    "every single damaged number or row",
    why="Transposed matrices, scaled frequencies and misread tables look "
    "plausible; tests hold a handful of files with one and two ports.",
    files=["hftools/file_formats/touchstone.py",
           "hftools/file_formats/common.py",
           "hftools/file_formats/readbase.py"],
    mech=[("save_touchstone", "hftools/file_formats/touchstone.py"),
          ("process_data, proc_info", "hftools/file_formats/touchstone.py")],
    observe=["files written", "data blocks read"],
    note="5 328 round trips with 1-4 ports, 4 608 three-cycle histories, "
    "25 200 option lines, 12 960 layouts, 2 430 noise files, 4 048 damaged "
    "files.")

prop(
    id="C13",
    title="CITI files hold what was saved and what they say",
    statement="A data block saved with save_citi and read with read_citi (or "
    "read_data) comes back with the same real, complex and matrix values at "
    "the same labels in SI units, whatever the order of dimensions of each "
    "variable, with the same scalar variables, comments and name; repeating "
    "this changes nothing and saving does not modify the block. Variables "
    "that do not share their dimensions are refused with CITIFileError, "
    "leaving an existing file alone. Files by others are read according to "
    "their header: lists and segments, MAG, RI and MAGANGLE data, matrix "
    "elements, comments. A file with a lost, repeated or garbled line or cut "
    "anywhere is refused or read like the original, never misread.",
    over=["inputs", "histories", "faults"],
    quant="all combinations of dimensions, orders, kinds of variables, units, "
    "formats, comments, scalars; all spellings; every single damaged line and "
    "every truncation",
    why="Values at wrong labels and shifted lists look plausible; tests read "
    "a few files and save one.",
    files=["hftools/file_formats/citi.py", "hftools/file_formats/common.py",
           "hftools/file_formats/readbase.py"],
    mech=[("save_citi, format_citi_block", "hftools/file_formats/citi.py"),
          ("ReadCITIFileFormat.parse_blocks",
           "hftools/file_formats/citi.py")],
    observe=["files written", "data blocks read"],
    note="7 sets of dimensions x ordered pairs of 12 kinds of variables x all "
    "dimension orders, 4 608 three-cycle histories, 53 760 foreign files, "
    "every matrix element naming up to 3x3, all single line damages and "
    "truncations of three files.")

prop(
    id="C14",
    title="MDIF files hold what was saved and what they say",
    statement="A data block saved with save_mdif and read with read_mdif "
    "comes back with every real, complex and matrix value at the labels it "
    "belongs to (outer dimensions as VARs along INDEX), with attributes, "
    "scalars and comments; repeating this changes nothing and saving does "
    "not modify the block. Variables over different dimensions are stored in "
    "blocks of their own. Blocks by others are read according to their "
    "header, VARs and attributes; blocks of one name that do not fit "
    "together and damaged files are refused, and asking for a block that is "
    "not there raises MDIFError.",
    over=["inputs", "histories", "faults"],
    quant="all combinations of sweeps, outer dimensions, variables, "
    "attributes, scalars, comments; all sets of variables over different "
    "dimensions; all pairs and triples of misfitting blocks; every damaged "
    "line",
    why="The association of blocks with VARs is never checked by tests.",
    files=["hftools/file_formats/mdif.py", "hftools/file_formats/common.py",
           "hftools/file_formats/readbase.py", "hftools/dataset/dataset.py"],
    mech=[("save_mdif, fmt_mdif_block", "hftools/file_formats/mdif.py"),
          ("ReadMDIFFileFormat, simple_merge_blocks",
           "hftools/file_formats/mdif.py")],
    observe=["files written", "data blocks read"],
    note="47 000 round trips over 4 sweeps x 6 outer sets x pairs of 11 kinds "
    "x attributes x scalars, 3 168 three-cycle histories, all 252 sets and "
    "orders of 7 variables, 6 912 foreign files, 1 620 lists of misfitting "
    "blocks, all single line damages.")

prop(
    id="C15",
    title="HDF5 files hold exactly what was saved and appended",
    statement="A data block saved with save_hdf5 (version 0.1 or 0.2, to a "
    "file name or a handle) and read with read_hdf5 comes back bit for bit: "
    "values and types (integers, floats, complex, bool, text, dates), axes "
    "with their labels, classes and units, units, comments and block name, "
    "dimensions without variables, names with slashes, and formats (0.2). "
    "Saving does not modify the block. Appending a block to an expandable "
    "file adds exactly one label, one higher than the last, with the values "
    "of the block at their labels; a block that does not fit (variables, "
    "dimensions, labels, units or types differ) is refused and the file "
    "still holds what it held before.",
    over=["inputs", "histories"],
    quant="all pairs of 13 kinds of variables over 7 sets of dimensions, all "
    "types of values, all append histories of 13 kinds of blocks",
    why="Every type, dimension class and append history has its own path "
    "through the file; tests store a few floats and append once.",
    files=["hftools/file_formats/hdf5/v_01.py",
           "hftools/file_formats/hdf5/v_02.py",
           "hftools/file_formats/hdf5/hdf5.py"],
    mech=[("save_hdf5_handle, read_hdf5_handle, append_hdf5, match_data",
           "hftools/file_formats/hdf5/v_02.py"),
          ("save_hdf5, read_hdf5", "hftools/file_formats/hdf5/v_01.py")],
    observe=["data blocks read from files"],
    note="2 316 round trips, 6 912 two-cycle histories, 25 types and value "
    "sets x 6 shapes, 216 multi-block files, 6 252 append histories of depth "
    "2 (thorough 3), 1 350 series of all types.")

prop(
    id="C16",
    title="read_data reads every file with the reader of its format",
    statement="read_data recognises SP-data, CITI, MDIF, Touchstone and HDF5 "
    "files by their contents, whatever their name, comments, spelling of the "
    "distinguishing lines and encoding (cp1252), and gives what the reader "
    "of the format gives with the same options, for a name, a path, a "
    "pattern or a list of names. Reading does not change the file. Missing "
    "files raise IOError, files without data are refused.",
    over=["inputs"],
    quant="all combinations of format, contents, misleading comments, file "
    "names, ways to give the name and options; all spellings of option lines",
    why="The format is guessed from any line of the file, so a comment or an "
    "unusual spelling may send a file to the wrong reader.",
    files=["hftools/file_formats/__init__.py"],
    mech=[("read_data", "hftools/file_formats/__init__.py"),
          ("is_mdif", "hftools/file_formats/mdif.py"),
          ("is_touchstone", "hftools/file_formats/touchstone.py"),
          ("is_citi", "hftools/file_formats/citi.py")],
    observe=["data blocks read"],
    note="14 896 files x names x argument kinds, 17 508 foreign spellings, "
    "648 option combinations, 136 sets of files.")

prop(
    id="C18",
    title="The data cache never hands out incomplete data",
    statement="read_to_cache gives the data of the file and remembers, under "
    "the name of the file or the given name, the data as the with-block left "
    "them; the next use gives exactly these and says so, until reread=True. "
    "When the with-block raises, the data can not be stored, the process is "
    "interrupted or dies at any point, the exception is passed on and the "
    "cache holds either what it held before or all of the new data, and is "
    "usable afterwards. Overlapping users get complete data.",
    over=["histories", "faults", "schedules"],
    quant="all sequences of uses with 5 kinds of bodies, every crash point "
    "while a cache is saved x (killed, interrupted), all interleavings of "
    "two users (thorough three)",
    why="A partly written cache is read later as if it were the data; tests "
    "do not exercise the cache at all.",
    files=["hftools/file_formats/__init__.py"],
    mech=[("read_to_cache, read_from_cache",
           "hftools/file_formats/__init__.py")],
    observe=["data handed out", "contents of the cache"],
    note="2 942 histories, 1 952 crash points (every line executed in "
    "file_formats while saving, killed or interrupted), 108 interleavings.")

prop(
    id="C19",
    title="Configuration files keep values, scope and the old file",
    statement="A configuration value is read as what its text says: a number "
    "with SI prefix and unit, percent/ppm/ppb, an interval of days, hours, "
    "minutes and seconds, a date, a time of day (its next occurrence), and "
    "anything else as YAML defines; quoted text stays text. In a "
    "LexicalConfig [] , get and in find a key in the nearest enclosing "
    "mapping that has it, also through lists, copies and MergedDicts. What "
    "is written comes back equal after reload, by either class, any number "
    "of times. A write that fails leaves the file as it was; reload gives "
    "what the file holds and nothing else.",
    over=["inputs", "histories", "faults"],
    quant="all numbers x prefixes x units x places, all nested mappings of "
    "up to 3 levels through lists, all histories of up to 4 changes, writes, "
    "failing writes and reloads, all storable values at all places",
    why="Values are recognised by a set of competing patterns and written by "
    "separate representers; tests read one file and write it once.",
    files=["hftools/file_formats/config.py"],
    mech=[("reg_si_value, timeintervallpattern, constructors, representers",
           "hftools/file_formats/config.py"),
          ("LexicalScopeDict, MergedDicts, find_next_dict",
           "hftools/file_formats/config.py"),
          ("Config.write, LexicalConfig.write",
           "hftools/file_formats/config.py")],
    observe=["values of Config and LexicalConfig", "files written"],
    note="102 328 executions: values, 10 396 scopes with changes, 7 008 "
    "merges, 14 250 double round trips, 22 610 histories.")

prop(
    id="C20",
    title="Numbers with SI units are written and read with their value",
    statement="A number formatted with SIFormat or format_number is written "
    "with the prefix that gives a mantissa from 1 to below 1000 (the nearest "
    "prefix outside 1e-24 to 1e27) and its text denotes the number rounded "
    "to the asked digits, for every magnitude and sign; zero, infinities and "
    "nan are written as such. Text of a number with prefix and unit is read "
    "as exactly that number and base unit, and text that is no number is "
    "refused or returned unchanged.",
    over=["inputs"],
    quant="57 decades x 15 mantissas (around the rounding borders) x signs x "
    "digits x units; all prefixes x units x spellings when read",
    why="Borders between prefixes and rounding across them depend on "
    "magnitude and digits together.",
    files=["hftools/constants/si_units.py"],
    mech=[("SIFormat, format_number, unit_to_multiplier, "
           "string_number_with_unit_to_value, convert_with_unit",
           "hftools/constants/si_units.py")],
    observe=["formatted text", "values read"],
    note="Exhaustive product of the stated alphabets against a decimal "
    "oracle written from the SI prefix table.")

prop(
    id="C24",
    title="Phase, delay, smoothing and interpolation are right everywhere",
    statement="angle gives the direction of every element within the asked "
    "interval; dB, dBinv and the conversions from polar form are exact "
    "inverses at every coordinate. unwrap_phase is the phase modulo full "
    "turns, without jumps above half a turn, beside the first curve where "
    "curves start close to each other; continous_phase_sqrt is a continuous "
    "root. delay is minus the phase slope at mid frequencies. smooth and "
    "poly_smooth take for each sample the mean or least squares polynomial "
    "of the window of the aperture along the asked axis, for data of any "
    "type. interpolate follows the straight line of the segment and refuses "
    "points outside. Labels are kept and arguments not modified.",
    over=["inputs", "histories"],
    quant="all phase histories up to 4 samples (7 steps), all branches, all "
    "lengths x apertures x axes x dtypes, all tables of up to 4 samples",
    why="Branch cuts, ends of windows and segments are met only for special "
    "combinations of neighbouring samples, which tests do not enumerate.",
    files=["hftools/math.py"],
    mech=[("angle, unwrap_phase, delay, smooth, poly_smooth, interpolate, "
           "linear_extrapolate, chop, dB, dBinv", "hftools/math.py")],
    observe=["arrays returned"],
    note="About 80 000 executions; exact rational least squares oracle.")

prop(
    id="C23",
    title="Names are ordered by their numbers, text becomes what it says",
    statement="lex_order returns the same names, ordered by the first "
    "difference with numbers compared by value and before text, whatever the "
    "order of the input; glob gives exactly the matching files in this "
    "order. to_numeric returns the int, float or date a text denotes and "
    "refuses or returns other text; uniq, stable_uniq and flatten keep every "
    "element (once), chop zeroes exactly the numbers below its tolerances, "
    "make_dirs keeps what exists. Messages reach stderr once each exactly "
    "while the log is started.",
    over=["inputs", "histories"],
    quant="all pairs of names up to 3 characters, all orders of 5 names, all "
    "spellings of numbers, all nested lists up to depth 3, all histories of "
    "5 start/stop/message events",
    why="The order of files decides which data get which index; it depends "
    "on the mix of digits and text in all names together.",
    files=["hftools/utils.py", "hftools/logger.py"],
    mech=[("lex_order, split_num, glob, to_numeric, uniq, stable_uniq, "
           "flatten, chop, make_dirs", "hftools/utils.py"),
          ("start_log, stop_log", "hftools/logger.py")],
    observe=["values returned", "text on stderr"],
    note="About 88 000 comparisons of names, 2 160 numbers, 3 141 nested "
    "lists, 3 250 log histories.")

prop(
    id="C25",
    title="Noise of a two-port does not depend on its representation",
    statement="The thermal noise of a passive two-port given as Y, Z or S "
    "parameters, taken through any chain of conversions, has the textbook "
    "correlation matrix of the final representation and noise parameters "
    "that give, for every source admittance, the noise factor "
    "1 + (T/T0)(1/available gain - 1). Noise parameters given to "
    "from_noisepar come back from every representation. Correlation "
    "matrices stay Hermitian, hold at every coordinate, and the two-port is "
    "not modified.",
    over=["inputs", "histories"],
    quant="6 passive and 2 active two-ports x temperatures x all conversion "
    "chains of length 2 (thorough 3) x coordinate layouts x source "
    "admittances",
    why="There is no test; an error in one representation shows only when "
    "results of different routes are compared.",
    files=["hftools/networks/noise.py"],
    mech=[("passive_noise, from_noisepar, NoisyTwoport.convert, "
           "noise_parameters, Hconj", "hftools/networks/noise.py"),
          ("convert", "hftools/networks/multiports.py")],
    observe=["correlation matrices", "noise parameters"],
    note="5 279 executions; oracle: available gain computed from the "
    "impedance matrix.")

prop(
    id="C26",
    title="Comments keep their lines and state their properties",
    statement="A comment 'name [unit] : value' or 'name = value' states the "
    "property name with the number (converted to the base unit), date or "
    "text that its value denotes; text with a unit stays text, lines without "
    "value state nothing. Both Comments classes keep the lines in order, the "
    "last value of a name counts, copies and extensions are independent, the "
    "listing has each property once, sorted by name, and "
    "every file format (SP-data, CITI, MDIF, Touchstone, HDF5 0.1 and 0.2) "
    "gives back the lines and properties of a saved block.",
    over=["inputs", "histories"],
    quant="7 names x 6 separators x 60 values with and without units x 4 "
    "prefixes x 2 classes; all histories of 3 additions, extensions and "
    "copies; all of these lines through 6 file formats",
    why="Any text may follow the separator, and a line that can not be "
    "interpreted must not make the file unreadable.",
    files=["hftools/dataset/comments.py", "hftools/file_formats/common.py"],
    mech=[("process_comment, Comments", "hftools/dataset/comments.py"),
          ("process_comment, Comments", "hftools/file_formats/common.py")],
    observe=["Comments.fullcomments, Comments.property"],
    note="135 072 lines, 8 880 histories, 9 900 files.")

prop(
    id="C27",
    title="Reader options do what they say and nothing else",
    statement="read_spdata, read_citi, read_touchstone, read_mdif and "
    "read_data obey every combination of their options: make_complex joins "
    "Re/Im and Mag/Arg columns, guess_unit converts 'name [unit]' columns to "
    "base units and gives well known names their unit, normalize gives "
    "columns their usual names, make_matrix joins matrix elements, "
    "property_to_vars makes variables of comment properties (never instead "
    "of a column), merge=False returns the blocks as they stand in the "
    "files. A switched off option leaves the columns as they stand in the "
    "file, and columns whose names would become the same are kept or the "
    "file is refused: no value of a file is lost.",
    over=["inputs"],
    quant="all 32 combinations of options x headers x comments x ways to "
    "call, for 4 file formats",
    why="The tests read files with the default options only; options act one "
    "after the other on names the previous one made.",
    files=["hftools/file_formats/readbase.py",
           "hftools/file_formats/common.py",
           "hftools/file_formats/__init__.py",
           "hftools/file_formats/mdif.py",
           "hftools/file_formats/citi.py",
           "hftools/file_formats/spdata.py",
           "hftools/file_formats/touchstone.py",
           "hftools/dataset/dataset.py"],
    mech=[("ReadFileFormat.do_file, make_cplx, fix_unit, match_matrix_elements",
           "hftools/file_formats/readbase.py"),
          ("normalize_names", "hftools/file_formats/common.py"),
          ("values_from_property, guess_units",
           "hftools/dataset/dataset.py")],
    observe=["data blocks read"],
    note="117 744 SP-data files and option sets, 960 CITI, 1 728 Touchstone, "
    "2 048 MDIF, 2 880 clashing headers, 21 024 sets of unmerged files.")

prop(
    id="C21",
    title="A plot shows the data it was given",
    statement="Plotting labelled or plain data on an axes draws one line per "
    "curve, at the given x (or the first dimension), with exactly the "
    "quantity the axes' projection (or the projection argument) names: dB, "
    "magnitude, squared magnitude, phase in rad/deg, unwrapped phase, group "
    "delay, real, imaginary, complex plane, polar. The axis unit is that of "
    "the shown quantity. After any history of plotting, limits, ticks and "
    "label formats, the drawn label and the tick texts together denote the "
    "tick positions (the prefix is in the label or in the tick text, never "
    "lost or stale). The open figures are listed, and saved as the pages of "
    "one pdf, in the order of their numbers. Smith and polar grids consist of exactly the constant "
    "resistance, reactance (or conductance, susceptance) loci and arcs they "
    "stand for.",
    over=["inputs", "histories"],
    quant="all projections, call forms, shapes and values; all tick decades; "
    "all histories of plot/limit/tick/label operations; all arcs",
    why="The existing plotting tests look at label getters only and never at "
    "lines, tick texts or the chart geometry.",
    files=["hftools/plotting/helper.py", "hftools/plotting/smith.py"],
    mech=[("_projfun, HFToolsAxes.plot, UnitFormatter",
           "hftools/plotting/helper.py"),
          ("RCircle, XCircle, GCircle, BCircle, smith_grid",
           "hftools/plotting/smith.py")],
    observe=["Line2D data, axis labels, tick texts, patches"],
    note="97 000 executions in 15 spaces (projections x call forms, phase step "
    "sequences, tick decades x templates, operation histories of depth 3, "
    "arcs, grids, legends).")

prop(
    id="C22",
    title="muwave MAT files are read as what they state",
    statement="Reading a MAT file of the muwave toolbox with read_data or "
    "read_muwave_matlabdata gives, for each measurement of the sweep, exactly "
    "the S, Y or Z matrices, covariances, reference impedance, frequencies "
    "(in Hz), states and properties the file states: numbers also when they "
    "are zero, text as text, dates as times, voltages in V and currents in "
    "A, empty values dropped only when empty in every measurement and "
    "drop_empty is on. Several files by pattern are put in natural order "
    "along Index2. Other MAT files and measurements that do not fit together "
    "are refused with HFToolsIOError.",
    over=["inputs"],
    quant="all measurement counts, parameter types, ports, frequencies, "
    "number kinds, index orders, kinds of states and properties, several "
    "files",
    why="The tests read two example files only.",
    files=["hftools/file_formats/muwave_mat.py",
           "hftools/file_formats/merge.py"],
    mech=[("build_meas_state, build_measmnt, build_data, "
           "read_muwave_matlabdata", "hftools/file_formats/muwave_mat.py")],
    observe=["data blocks read"],
    note="19 430 files: 11 664 tables, 7 680 kinds of states and properties, "
    "sets of files, misfits.")

prop(
    id="C28",
    title="The report of a data block states what it holds",
    statement="str, repr and report() of a data block give for every "
    "dimension one row with its name, number of labels, and (unless switched "
    "off) the minimum and maximum with a prefixed unit that together denote "
    "the labels' values; and for every variable one row, in the order of the "
    "block, with its name, unit and shape, for every width and kind of "
    "labels. dir() lists the variables, dimensions and the matrix elements "
    "that can be accessed by name.",
    over=["inputs", "configurations"],
    quant="all kinds of labels and units, sets of variables, report settings "
    "and widths",
    why="The tests compare the report of a single block.",
    files=["hftools/dataset/dataset.py"],
    mech=[("DataBlock.report, ivar_report, depvar_report, __dir__",
           "hftools/dataset/dataset.py")],
    observe=["text of the report", "names listed by dir()"],
    note="8 640 labels x settings, 1 536 blocks x 34 widths, 384 listings.")

prop(
    id="C29",
    title="Expanded and collapsed forms of arrays hold the same numbers",
    statement="expand_diagonals replaces each chosen dimension by its "
    "independent and derivative dimensions, with the numbers on the diagonal "
    "and zero elsewhere; diagonal_view reads and writes exactly the diagonal "
    "of the given dimensions; make_fullcomplex_array gives the real 2x2 form "
    "of each number, once only; change_shape puts the dimensions in any "
    "order, new ones with length one; remove_tail and remove_rep join the "
    "dimensions after the first, and the repetitions, in the order given. "
    "Labels, classes and order of the other dimensions are kept, whatever "
    "the memory layout of the array, and the argument is not changed.",
    over=["inputs"],
    quant="all arrays of up to 4 dimensions of the classes x sizes x number "
    "types x 4 memory layouts x dimensions chosen and their order",
    why="The tests use arrays of equal sizes, of zeros, in C order.",
    files=["hftools/dataset/arrayobj.py", "hftools/dataset/dim.py"],
    mech=[("expand_diagonals, diagonal_view, make_fullcomplex_array, "
           "change_shape, remove_tail, remove_rep",
           "hftools/dataset/arrayobj.py")],
    observe=["values and dims of the arrays"],
    note="about 120 000 arrays; change_shape in all orders of up to 3 old and "
    "2 new dimensions.")

prop(
    id="C30",
    title="A file holds what was saved last, and reading leaves it alone",
    statement="After any sequence of saves in any of the formats (SP-data, "
    "CITI, MDIF, Touchstone, HDF5 0.1 and 0.2) to any names, each file holds "
    "exactly the block saved last under its name, as if it had been saved to "
    "a new file, complete on disk when the save returns, however long or of "
    "whatever format the earlier file was; other files are not touched, no "
    "other files are made and the block is not changed. Reading, by name, "
    "path or list and also when it fails, changes and creates no file; "
    "reading a file that does not exist raises. A save to a text format that "
    "can not be written completely, at whatever byte the disk is full, "
    "raises, and the next save works; one that is refused because the block "
    "can not be written in the format leaves the old file as it was.",
    over=["histories", "faults", "inputs"],
    quant="all histories of saves and reads over names x formats x blocks, "
    "all bytes at which writing can fail",
    why="Tests save each file once, to a new name, on a disk with space.",
    files=["hftools/file_formats/common.py", "hftools/file_formats/spdata.py",
           "hftools/file_formats/citi.py", "hftools/file_formats/mdif.py",
           "hftools/file_formats/touchstone.py",
           "hftools/file_formats/hdf5/hdf5.py",
           "hftools/file_formats/hdf5/helper.py"],
    mech=[("write_lines",
           "hftools/file_formats/common.py"),
          ("save_spdata", "hftools/file_formats/spdata.py"),
          ("hdf5context and modes", "hftools/file_formats/hdf5/helper.py")],
    observe=["bytes of the files in a folder", "exceptions", "blocks read"],
    note="Sequences of 2 (thorough 3) saves of 3 blocks in 6 formats to 2 "
    "names, all files read in 4 ways; write failure injected at every byte "
    "with RLIMIT_FSIZE; write failure of the HDF5 library is not explored.")

prop(
    id="C31",
    title="A labelled array is what it was made from",
    statement="An array made from numbers, text, dates, a list, an array of "
    "any memory layout, another labelled array or a dimension holds exactly "
    "its values in its type (or the one asked for), with the dimensions "
    "given, else those of its source, else the default freq and rep numbered "
    "from 0; its unit and output format are those given, else those of the "
    "source, else none and the format of its type. Dimensions that do not "
    "match the number of axes are refused. It shares the data of its source "
    "only when copy is off. Functions of one array (negation, abs, real, "
    "imag, conj, numpy functions, copies, views) keep class, dimensions, "
    "unit and format and do not change it; make_matrix, make_vector and the "
    "network classes label rows and columns from 0. dims_index finds the "
    "first dimension of a name, and class if given, and refuses others; "
    "ismatrix tells which arrays have rows and columns.",
    over=["inputs", "histories"],
    quant="all types, shapes, sources, options and chains of them",
    why="Every other guarantee starts from arrays as made; constructor, view "
    "and finalize each decide part of the metadata depending on the "
    "combination of source and options, tests try a few combinations.",
    files=["hftools/dataset/arrayobj.py", "hftools/networks/multiports.py"],
    mech=[("_hfarray.__new__, __array_finalize__, view, copy",
           "hftools/dataset/arrayobj.py"),
          ("_MultiPortArray.__new__", "hftools/networks/multiports.py")],
    observe=["hftools.dataset.hfarray", "hftools.networks.multiports"],
    note="11 element types x 8 shapes x 5 sources x all options; 20 "
    "functions; chains of 3 (thorough 4) of 15 operations, all arrays of the "
    "chain compared after each.")
