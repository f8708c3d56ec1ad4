# The properties, in one place; gen_meta.py writes properties.jsonl and MANIFEST.json from this list.
H = "src/data_raster.hpp"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None),
                  tech=tech, note=note, na=na))


RN = "random and structured scenarios of small grids (up to 9 x 9 cells, 4 layers, 8 registers) for float, double and int elements; values in exact quarters; trusts TLC, the driver's projection and, for GeoTIFF, GDAL"
RT = "TLA+ state machine checked with TLC; recorded and TLC-generated behaviours of the real code validated against it"

# ------------------------------------------------------------------ raster
p("R01", "A raster has one consistent view of its cells in either storage form",
  "Whether a raster stores its full grid or only its valid cells, every grid cell is either a valid cell with exactly one index, indices ascending in row-major order and position lists naming exactly those cells, or a no-data cell. Looking a value up by row and column, by index or by listing a cell's layers always gives the value of that cell and layer, and an index, row, column or layer outside the raster is reported as no-data or refused, never as another cell.",
  ["inputs", "configurations", "programs"], "every grid shape, nodata pattern, layer count, element type and order of building positions, reading and writing",
  "the tests read three fixed files and query three points; they never compare every cell of both storage forms or ask for indices just outside",
  [H], [("position index", H + ":SetPositions/SetCalcPositions/GetPosition"), ("value lookup", H + ":GetValue/GetValueByIndex")],
  ["accessors of a loaded or built raster"],
  tech=RT, note=RN)
p("R02", "Coordinates and cells correspond",
  "Every point inside a raster's extent, including all of its border cells, belongs to exactly the cell whose square contains it, and the coordinates given for a cell are its centre. A point outside the extent belongs to no cell.",
  ["inputs", "configurations"], "every geometry (origin, cell size, shape) and point, in particular points in border half-cells and on edges",
  "tests query a handful of interior points", [H],
  [("coordinate lookup", H + ":GetPositionByCoordinate/GetPosition(x,y)"), ("centres", H + ":GetCoordinateByRowCol")],
  tech=RT, note=RN)
p("R03", "A mask selects the values of the data set at the mask's valid cells",
  "A raster read or built with a mask holds, at each valid cell of the mask, the value of the source cell that contains that mask cell's centre, and no-data (or the given default value where the source has no data) elsewhere; cells outside the mask never show a source value. If no mask cell has data the raster is refused, unless the extent is to be the mask's and a default value is given.",
  ["inputs", "configurations"], "every pair of mask and data geometries and nodata patterns, storage and extent options, default value",
  "tests cover six fixed masks and compare a few cells and statistics", [H],
  [("masking", H + ":MaskAndCalculateValidPosition")],
  tech=RT, note=RN)
p("R04", "A masked raster is georeferenced so that its cells keep their ground position",
  "The header of a masked raster describes the grid it holds: either the mask's extent or the smallest part of it that contains the data, in whole mask cells, so every cell's coordinates are those of the mask cell it came from. The reported cell count, layer count and storage flags agree with the stored data.",
  ["inputs", "configurations"], "every pair of mask and data geometries, nodata patterns and option settings",
  "tests pin the header of a few fixed mask and data pairs", [H],
  [("header update", H + ":MaskAndCalculateValidPosition"), ("header accessors", H + ":GetRows/GetXllCenter/GetCellNumber")],
  tech=RT, note=RN)
p("R05", "Statistics describe exactly the valid cells of each layer",
  "The count, mean, minimum, maximum, range and standard deviation reported for a layer, whether asked one at a time or together, are those of exactly the cells that are not no-data in that layer. After values change, refreshing the statistics gives those of the new values, and a copy of the raster reports the same numbers.",
  ["inputs", "histories"], "every raster, layer count and order of reading, changing, refreshing and copying",
  "tests compare the statistics of fixed files once, never after writes, copies or per-layer differences", [H],
  [("statistics", H + ":CalculateStatistics/UpdateStatistics/GetStatistics"), ("arithmetic", "src/utils_math.h:BasicStatistics")],
  tech=RT, note=RN)
p("R06", "Setting one cell changes that cell and nothing else",
  "Setting the value of a valid cell of one layer makes exactly that cell and layer read back as the new value, in this raster only; all other cells, layers and rasters keep theirs. Setting a cell that is outside or has no storage changes nothing.",
  ["inputs", "histories", "programs"], "every sequence of writes and copies on every raster, mask-built rasters included",
  "tests set one value in one raster", [H], [("write", H + ":SetValue")],
  tech=RT, note=RN)
p("R07", "Replacing no-data and reclassifying change exactly the intended cells",
  "Replacing the no-data value turns every no-data cell of every layer into the new no-data value, keeps all other values, and from then on the new value is what the raster reports as no-data. Reclassification maps every valid first-layer value through the table, gives unmapped values no-data, and leaves no-data cells as they are.",
  ["inputs", "histories"], "every raster, table and new no-data value", "tests do each once on a small fixed table", [H],
  [("replace", H + ":ReplaceNoData"), ("reclassify", H + ":Reclassify")],
  tech=RT, note=RN)
p("R08", "A copy equals its source and shares nothing with it",
  "Copying a raster gives one that reports the same values, layers, positions, header, options and statistics. Later changes to or destruction of either never affect the other, also when the source borrowed data from a mask or a caller.",
  ["inputs", "histories", "programs"], "every kind of source and target and every later sequence of changes and destructions",
  "tests copy once and compare a few numbers; they cannot exhaust lifetimes and aliasing", [H],
  [("copy", H + ":Copy/operator="), ("ownership flags", H + ":~clsRasterData")],
  tech=RT, note=RN)
p("R09", "Subsets partition the valid cells and place them correctly",
  "Building subsets puts every valid cell with a group into exactly one subset, whose bounding box is the smallest that contains its cells and whose local and global cell numbers and georeference name the same ground cells. Rasters masked by a raster with subsets get the same partition restricted to their own cells, without empty subsets.",
  ["inputs", "configurations", "histories"], "every value pattern, group map, masks of other extents and repeated building",
  "tests build subsets for one file and check counts", [H, "src/data_raster.cpp"],
  [("grouping", H + ":BuildSubSet"), ("inheritance", H + ":MaskAndCalculateValidPosition"), ("subset geometry", "src/data_raster.cpp:SubsetPositions")],
  tech=RT, note=RN)
p("R10", "Decomposing a raster and recombining it loses nothing",
  "Writing a raster by subset gives one file per subset and layer, each holding exactly that subset's values at their ground position and no-data elsewhere, and the combined file equals the raster written whole. Data placed into subsets comes back combined at the right cells with the default value, or no-data, where no subset has data.",
  ["inputs", "configurations"], "every partition, layer count, selection of layer, storage form and subset data",
  "tests split and merge one data set with one group map", [H, "src/data_raster.cpp"],
  [("output by subset", H + ":OutputSubsetToFile/PrepareSubsetData"), ("combination", H + ":PrepareCombSubsetData"), ("subset data", "src/data_raster.cpp:Set1DData/Set2DData")],
  tech=RT, note=RN)
p("R11", "Output through a reclassification table writes mapped values",
  "Writing a raster or its subsets through a reclassification table writes, for every cell, the value the table gives for that cell's group, the default value for groups that the table does not map, and no-data outside the data; the raster itself is unchanged.",
  ["inputs", "configurations"], "every table, group pattern and default value, combined or per subset", "tests use one table for one file", [H],
  [("recls output", H + ":OutputSubsetToFile")],
  tech=RT, note=RN)
p("R12", "Layers of a multi-layer raster stay aligned",
  "A raster built from several layer files of possibly different extents holds in each layer the value that layer's file has at the cell's ground position, or no-data; the first layer decides which cells are valid. Layers written out come back in the same order with the same values.",
  ["inputs", "configurations"], "every combination of layer geometries, nodata values, mask and storage options",
  "tests use three files with fixed shifts", [H], [("layer reading", H + ":ReadFromFiles"), ("layer writing", H + ":OutputToFile")],
  tech=RT, note=RN)
p("R13", "ASCII grid files round trip",
  "A raster written as an ASCII grid and read back has the same shape, no-data cells, georeference (to 15 significant digits) and values (floating point values to the six significant digits written), for either storage form and each layer. Reading puts the n-th value of the file at the n-th cell whatever the line breaks, header order and corner or centre convention.",
  ["inputs", "configurations"], "every raster and every accepted layout of an ASCII grid", "tests read and write fixed files", [H, "src/data_raster.cpp"],
  [("parser", H + ":ReadAscFile"), ("writer", H + ":OutputAscFile/WriteSingleAsc"), ("header", "src/data_raster.cpp:WriteAscHeaders")],
  tech=RT, note=RN)
p("R14", "GeoTIFF files round trip through every supported data type",
  "A raster written as GeoTIFF with an output type that can hold its values and read back has the same shape, georeference, no-data cells and values; the file declares the requested type and a no-data value that type can hold; integer types hold the whole part of fractional values. If a value, or no-data, cannot be held by the requested type, writing either keeps the raster recoverable by choosing another representation or reports failure.",
  ["inputs", "configurations"], "every element type, output type, no-data value and value range",
  "tests write a few float and integer files", [H], [("writer", H + ":WriteSingleGeotiff/OutputFileByGdal"), ("reader", H + ":ReadRasterFileByGdal")],
  tech=RT, note="all element types against all output types, values at the limits of each type; grids of up to 6 cells; 64-bit values that round to the no-data value as double are left out; trusts TLC, GDAL")
p("R15", "Malformed ASCII grids are refused, never half read",
  "An ASCII grid whose header lacks a required entry or has an unreadable number, whose count of values is not rows times columns, or whose values are unreadable is refused: no raster is created from it and nothing else is disturbed.",
  ["inputs"], "every mutation of a well-formed file", "tests feed one malformed file", [H], [("parser", H + ":ReadAscFile")],
  tech=RT, note=RN)
p("R16", "Type names, type codes and default no-data values agree",
  "Converting a data type to its name and back is the identity, every alias names the documented type, unknown names give the unknown type, and each C++ type maps to its own data type. Every type's default no-data value is representable in that type, and the output type chosen by the options of a raster is the one the options name, or the type of its elements.",
  ["inputs", "configurations"], "all types, names in any letter case, option maps", "tests look up a few", ["src/data_raster.cpp", H],
  [("tables", "src/data_raster.cpp:RasterDataTypeToString/StringToRasterDataType/TypeToRasterDataType/DefaultNoDataByType")],
  tech=RT, note="all codes, 49 names, 13 C++ types, random option maps; trusts TLC")
p("R17", "Results do not depend on the number of threads",
  "Reading, masking, subsetting, reclassifying, computing statistics, copying and writing give the same results for every number of worker threads and every scheduling of them (a standard deviation up to floating-point rounding), and no two workers use the same memory when one of them changes it.",
  ["schedules", "inputs"], "every team size, every interleaving of the workers of the parallel loops",
  "tests run with one default thread count and compare no two runs", [H, "src/utils_array.h", "src/utils_math.h"],
  [("parallel loops", H + ":omp parallel for"), ("array loops", "src/utils_array.h:Initialize1DArray")],
  tech="TLA+ specification of parallel loops (spec/ParLoop.tla), model checked by TLC (an orderly loop has one result under every schedule), and trace validation of the real loops run under controlled schedules against it and the raster specifications",
  note="MCParLoop: 3 iterations on 2 workers over 2 places, all programs of up to 2 steps each; the code is built with instrumented memory accesses and its own runtime for parallel regions: teams of 1 to 40 workers run as coroutines under seeded schedules, what each worker touched is checked against Orderly and every result against the thread-free specification; trusts TLC, the compiler's instrumentation; OpenMP tasks and ordered loops are not modelled")
p("R18", "A raster built from a mask and an array holds the array at the mask's cells",
  "A raster built over a mask from an array of one value per valid mask cell (or per grid cell) reports those values at those cells on every layer, has the mask's georeference and no-data elsewhere, and can be queried, written and copied like any other raster.",
  ["inputs", "configurations"], "every mask (full or compact), array length, layer count and option", "tests build one or two such rasters and only write them", [H],
  [("mask and values constructors", H + ":clsRasterData(clsRasterData<MASK_T>*, T*, ...)")],
  tech=RT, note=RN)
p("R19", "A raster that cannot be read is refused and nothing is left behind",
  "Reading from missing, unreadable or mismatching files, in any layer, or with an empty mask, reports failure instead of giving a raster, never touches freed or unowned memory, and leaves mask and other rasters unchanged. The object that failed can still be queried for its state, copied and destroyed safely; an object that already holds a raster keeps it if the files do not exist.",
  ["fault_sequences", "inputs", "histories"], "every position of a bad file in the list, every entry point, every following use",
  "tests open one missing file", [H], [("factories", H + ":Init/ReadFromFile/ReadFromFiles"), ("initialised flag", H + ":Initialized/ValidateRasterData")],
  tech=RT, note=RN)
p("R20", "Switching to compact storage or mask extent later equals asking for it first",
  "Calculating valid positions or extending to the mask's extent after a raster has been read gives the same cells, values, statistics and georeference as a raster on which this was asked for at reading. Asking again is refused and changes nothing.",
  ["histories", "configurations"], "every raster and every order of these switches, reads and writes in between", "tests switch once on fixed files", [H],
  [("switches", H + ":SetCalcPositions/SetUseMaskExt")],
  tech=RT, note=RN)
# ------------------------------------------------------------------ strings, numbers
U = "src/utils_string."
p("S01", "Splitting text gives its fields in order",
  "Splitting by a delimiter gives exactly the fields between delimiters, unchanged and in order, inner empty fields included; the end of the text ends the last field and adds none, so joining the fields with the delimiter gives the text back. Splitting by white space gives exactly the words. Trimming removes white space at the named ends only and never characters inside.",
  ["inputs"], "all texts over delimiters, blanks, tabs, line ends and letters", "tests split three fixed texts", [U + "cpp"],
  [("split", U + "cpp:SplitString"), ("trim", U + "cpp:Trim/TrimSpaces")],
  tech=RT, note="all texts of up to 5 letters over five characters (TLC: 6) and random longer ones; trusts TLC")
p("S02", "Numbers are recognised exactly and survive formatting",
  "A text in canonical form is accepted as an integer exactly if it is within the range asked for (32 or 64 bit, signed or unsigned), and then gives that integer; a text is accepted as a floating point number exactly if all of it is one number in C notation, leading blanks allowed, and then gives that number, or infinity beyond the range; other texts, the empty one included, are refused. Formatting a number and reading it back gives the same number, and lists of numbers in a text are read completely or refused.",
  ["inputs"], "all texts of signs, digits, dots, exponents, blanks and letters; all integers", "tests parse a few texts", [U + "cpp", U + "h"],
  [("parse", U + "cpp:IsInt/IsInt64/IsUInt/IsUInt64/IsDouble/IsNumber"), ("format", U + "h:itoa/ValueToString"), ("lists", U + "h:SplitStringForValues")],
  tech=RT, note="all texts of up to 4 letters over nine characters, integers around every limit, random texts; trusts TLC")
p("S03", "Matching ignores letter case and only that",
  "Case-insensitive matching and case conversion relate two texts exactly if they are equal up to the case of Latin letters. Option maps store, replace and copy values under exactly the keys given.",
  ["inputs"], "all texts of letters in both cases, digits and other characters", "tests match two pairs", [U + "cpp"],
  [("match", U + "cpp:StringMatch/GetUpper"), ("maps", U + "cpp:CopyStringMap/UpdateStringMap")],
  tech=RT, note="all single characters, all texts of up to 2 letters, random texts and map operations; trusts TLC")
# ------------------------------------------------------------------ file system
F = "src/utils_filesystem.cpp"
p("F01", "Paths are taken apart and put together consistently",
  "For the name of a file, the directory is everything up to and with the last separator, the base name is the rest, and the base name is its core name followed by the suffix that begins at its last dot, if there is one; the path before the suffix is directory and core name. Replacing the suffix changes only the suffix (a name without directory or suffix gives the empty text), adding text before or after the core name changes nothing else, joining directory, name and suffix and taking the result apart gives them back. Making a path absolute names the same file and is stable when repeated.",
  ["inputs"], "all paths over separators, dots, letters, dotted directories and names without suffix", "tests take apart one well-behaved path", [F],
  [("path parts", F + ":GetPathFromFullName/GetSuffix/GetCoreFileName/ReplaceSuffix/GetAbsolutePath/AppendCoreFileName/PrefixCoreFileName/ConcatFullName")],
  tech=RT, note="random trees of up to 16 nodes with links, unwritable and closed directories; every operation runs as an unprivileged user in a scratch tree; the laws of the specification checked on all trees of up to 2 nodes (thorough 3); trusts TLC, the kernel")
p("F02", "Directory operations do what they say to exactly the named tree",
  "Making a directory creates it in its existing parent, emptying one removes its visible files and empty directories and nothing else (and makes it if it is missing), deleting one removes it and its whole content and nothing else, deleting a file removes that file only; a link inside the tree is removed, never followed. Existence tests tell the truth before and after. Each operation reports success exactly if the named state was reached.",
  ["inputs", "histories", "fault_sequences"], "all sequences of operations over small trees, names with blanks and dots, links, missing and unwritable places",
  "tests make and remove one directory", [F], [("operations", F + ":MakeDirectory/CleanDirectory/DeleteDirectory/DeleteExistedFile/PathExists/FileExists")],
  tech=RT, note="random trees of up to 16 nodes with links, unwritable and closed directories; every operation runs as an unprivileged user in a scratch tree; the laws of the specification checked on all trees of up to 2 nodes (thorough 3); trusts TLC, the kernel")
p("F03", "Finding and loading files is complete and exact",
  "Looking for files of a kind lists exactly the visible entries of the directory whose suffix is the one asked for in any letter case, or all of them if any suffix is asked for, by their absolute paths. Loading a text file gives its lines in order, trimmed, without blank and comment lines, whatever the line ends, and reports failure if the file cannot be read.",
  ["inputs", "histories"], "all small directory contents, suffixes, line ends, last lines without line end, comments", "tests list one directory", [F],
  [("listing", F + ":FindFiles"), ("loading", F + ":LoadPlainTextFile")],
  tech=RT, note="random trees of up to 16 nodes with links, unwritable and closed directories; every operation runs as an unprivileged user in a scratch tree; the laws of the specification checked on all trees of up to 2 nodes (thorough 3); trusts TLC, the kernel")
# ------------------------------------------------------------------ arrays, maths
p("A01", "One-dimensional arrays are created, filled, copied and released safely",
  "Creating an array of n elements, filled with a value or copied from another of any element type, gives exactly those n elements, independent of the source; sizes that are not positive are refused and give no array. Releasing, one or several together, frees each array exactly once and sets the handle to empty, and releasing again does nothing. Written as text, the elements appear in order.",
  ["inputs", "histories"], "all lengths, types, fills and orders of operations on several handles", "tests create and release one array", ["src/utils_array.h", "src/utils_array.cpp"],
  [("1D arrays", "src/utils_array.h:Initialize1DArray/Release1DArray/BatchRelease1DArray/Output1DArrayToTxtFile")],
  tech=RT, note="random operation sequences on 12 handles of four element types with failing allocations, all handles and the memory in use compared after every step; the ownership machine checked exhaustively on 2 to 3 handles; memory that runs out inside the array class is left out; trusts TLC")
p("A02", "Two-dimensional arrays keep rows, columns and ownership straight",
  "Creating an array of r rows and c columns, filled, from a flat array or from another array, gives row i column j exactly the element meant for it, and writing one element changes no other; sizes that are not positive are refused. Releasing one array or several together frees each exactly once and empties the handle. The array class copies, moves, assigns and swaps whole arrays without sharing.",
  ["inputs", "histories"], "all shapes, element types, ragged rows and orders of operations", "tests create one", ["src/utils_array.h", "src/utils_array.cpp"],
  [("2D arrays", "src/utils_array.h:Initialize2DArray/Release2DArray/BatchRelease2DArray/Output2DArrayToTxtFile"), ("class", "src/utils_array.h:Array2D")],
  tech=RT, note="random operation sequences on 12 handles of four element types with failing allocations, all handles and the memory in use compared after every step; the ownership machine checked exhaustively on 2 to 3 handles; memory that runs out inside the array class is left out; trusts TLC")
p("A03", "Lists stay as expected when values are looked up or removed",
  "Asking whether a list contains a value answers by equality, and removing a value removes exactly the elements equal to it, keeping the order of the rest.",
  ["inputs", "histories"], "all lists and values", "tests use one list", ["src/utils_array.h"], [("lists", "src/utils_array.h:ValueInVector/RemoveValueInVector")],
  tech=RT, note="all lists of up to 4 (thorough 5) elements over three values and random longer ones; trusts TLC")
p("M01", "Statistics functions of arrays are right",
  "Sum, minimum, maximum and the basic statistics of an array, with or without an excluded no-data value, are those of exactly the elements included, for every length, order and element type, also when several columns are computed together. For an array without any included element the count is zero.",
  ["inputs", "schedules"], "all arrays of small integers and halves, exclusion values, positions of extremes, all widths", "tests compute one array", ["src/utils_math.h", "src/utils_math.cpp"],
  [("statistics", "src/utils_math.h:Sum/MaxInArray/MinInArray/BasicStatistics")],
  tech=RT, note="all short arrays over four values, random arrays of up to 500 elements scaled by powers of two, 1 to 8 threads; trusts TLC")
p("M02", "Approximate functions keep their promises",
  "Comparing floating point numbers for equality is symmetric, tells apart numbers further apart than 1e-32 and accepts closer ones. The exponential function clamps its argument to the given bounds and the power function keeps the sign of its base. The approximate functions agree with the exact ones over their range: square root to six digits, exponential to 1e-5, power to 0.25 percent of the value, logarithm within 0.0005.",
  ["inputs"], "grids over the range, values near zero, one and the tolerance", "tests try a few arguments", ["src/utils_math.h", "src/utils_math.cpp"],
  [("functions", "src/utils_math.cpp:ApprSqrt/ApprLn/pow_lookup/Expo/Power"), ("comparison", "src/utils_math.h:FloatEqual/ApprExp/CalSqrt/CalPow")],
  tech=RT, note="dense samples of arguments; deviations from the C library measured by the driver and bounded by the specification; trusts TLC, the C library")
p("B01", "A text is an IP address exactly if it has the form of one",
  "A text is accepted as an IPv4 address exactly if it is four decimal numbers of one to three digits, each from 0 to 255, separated by single dots with nothing before, between or after.",
  ["inputs"], "all texts of digits, dots and other characters", "tests try three", ["src/basic.cpp"], [("check", "src/basic.cpp:IsIpAddress")],
  tech=RT, note="all texts of up to 9 letters over a digit and the dot, every field value at every place, random texts; trusts TLC")
# ------------------------------------------------------------------ GridFS
D = "src/db_mongoc.cpp"
p("G01", "The file store gives back what was last stored under a name",
  "After any sequence of writes, deletes and reads, a file read by name and metadata selection gives exactly the bytes and metadata of the matching stored file, files never stored or deleted are reported missing, and the lists of names, of databases and of collections are exactly what is there.",
  ["histories", "inputs"], "all sequences of store operations on several names, collections and metadata selections", "the tests need a running server and are not part of the stable suite", [D],
  [("store", D + ":MongoGridFs")],
  tech=RT, note="the real client code over an in-memory stand-in of the MongoDB C driver (harness/fake_mongoc.cpp); no server is involved")
p("G02", "A raster stored in the database comes back the same",
  "A raster written to the file store, whole or valid cells only and of any layer count and type, and read back, directly or through a mask, has the same values, no-data cells, georeference, spatial reference and type.",
  ["inputs", "configurations"], "all rasters, storage forms, data types and options", "no stable test has a database", [D, H],
  [("write", H + ":OutputToMongoDB"), ("read", H + ":ReadFromMongoDB")],
  tech=RT, note="the real raster and client code over an in-memory stand-in of the MongoDB C driver; conversions that lose fractions follow the C++ cast")
p("G03", "Transient store failures are retried, lasting ones reported",
  "An operation on the store whose first attempts fail but that succeeds within the allowed retries gives the same result as without failures; if failures last, the operation reports failure and claims no data. No stored file is damaged or duplicated by a retry.",
  ["fault_sequences", "histories"], "all placements of failures in the call sequence", "no test injects failures", [D, H],
  [("retry", D + ":MongoGridFs/WriteStreamDataAsGridfs")],
  tech=RT, note="the real client code over an in-memory stand-in of the MongoDB C driver (harness/fake_mongoc.cpp); no server is involved")
p("G04", "Values kept in a document are read as what was stored",
  "A number, text, truth value or instant kept in a document is read as that number, text, truth value or second, whatever its stored width; asking a kind of value a document does not hold, or a key it does not have, gives no number, an empty text, false, or no instant, and leaves the caller's number as it was.",
  ["inputs"], "all kinds and widths of values, including numbers beyond 32 bits, zero and negative numbers, texts that spell numbers, instants beyond 2038", "no stable test reads documents", [D],
  [("values", D + ":GetNumericFromBsonIterator GetStringFromBsonIterator GetBoolFromBsonIterator GetDatetimeFromBsonIterator")],
  tech=RT, note="the real client code over an in-memory stand-in of the MongoDB C driver (harness/fake_mongoc.cpp); no server is involved")
p("P01", "The masking tool produces exactly the requested outputs",
  "For every mode, mask, decompose, mask and decompose, or combine, the command line tool writes for each requested entry exactly the files described, with the values the mask, partition and reclassification tables define; a request that cannot be answered in full (a configuration file, mask or input that is missing or unreadable, an unknown mode, data that cannot be written) is reported by a failing exit, and no file is written that was not asked for.",
  ["inputs", "configurations"], "all small configurations of mask, data, layers, reclassification tables and defaults", "the tool has no test", ["apps/mask_rasterio.cpp"],
  [("modes", "apps/mask_rasterio.cpp:main")],
  tech=RT, note="the tool's main() built with the class and a database stand-in; requests given on the command line, in a configuration file or both, over rasters up to 6x6 with up to 3 layers and 3 entries; trusts TLC and the stand-in")
p("O01", "What is taken is given back exactly once",
  "Every raster, GridFS file, connection and document handle that is created holds what it needs (memory, open data sets, driver handles) until it is destroyed, and when it is destroyed everything taken for it has been given back exactly once - also when it was refused, copied, re-read, combined, reclassified or written in between, and when an operation on it failed part way. What is borrowed from the caller or from a mask is never given back by the borrower.",
  ["inputs", "histories", "crash_points"], "every history of creating, using, failing and destroying rasters, masks, subsets and GridFS handles",
  "tests never destroy under a leak or double-release check, and cover no failing operation", [H, D],
  [("raster storage", H + ":~clsRasterData/Copy/AddOtherLayerRasterData/UpdateStatistics"), ("data sets", H + ":ReadRasterFileByGdal"), ("driver handles", D + ":MongoGridFs/MongoDatabase/MongoClient")],
  tech=RT, note="ownership model of objects and resources in TLA+; after every destruction in the recorded histories the memory no longer reachable (leak sanitizer), GDAL's open data sets and the stand-in's live handles are judged against the specification; double release and use after release stop the driver (address sanitizer)")
# ------------------------------------------------------------------ time
p("T01", "The calendar is the Gregorian calendar",
  "Leap years, day of the year, Julian day numbers and the broken-down fields (year, month, day, hour, minute, second, day of week and of year) derived from any instant are those of the Gregorian calendar, in universal and in local time.",
  ["inputs", "configurations"], "every day of the supported years; instants at second resolution in several time zones with and without daylight saving", "tests check one instant in one zone", ["src/utils_time.cpp"],
  [("calendar", "src/utils_time.cpp:IsLeapYear/JulianDay/DayOfYear/GetYear/GetDateTime")],
  tech="TLA+ calendar model checked with TLC against the civil calendar's laws; recorded traces of the real functions validated against it",
  note="every month of the years 1583-2420 (thorough 1-4000) plus sampled instants; trusts TLC, the C library's zone rules for POSIX TZ texts")
p("T02", "Date texts and instants convert without loss",
  "Formatting an instant and parsing the text again gives the same instant, the text shows the universal or local standard reading of the instant, and parsing the parts of a date gives the instant they name. A text that does not match the format is refused.",
  ["inputs", "configurations"], "all instants at second resolution, formats, zones, both sides of daylight saving switches and month ends", "tests convert one instant", ["src/utils_time.cpp"],
  [("conversion", "src/utils_time.cpp:ConvertToString/ConvertToTime/GetDateInfoFromTimet")],
  tech="TLA+ model of instants, zones and texts; recorded traces of the real functions validated with TLC",
  note="sampled instants in 9 zones, dense around daylight saving switches and month ends; trusts TLC and the C library's zone rules")
p("T03", "Date-time values move and compare on one time line",
  "A date-time value moved forward or backward by milliseconds is exactly that far away, with its fields those of the new instant, moves add up and cancel, and all comparisons agree with the order of instants to the millisecond; conversion between local and universal time keeps the instant.",
  ["inputs", "histories", "configurations"], "all sequences of moves and comparisons, offsets over day, month and year ends, zones", "tests do not use these values", ["src/utils_time.cpp"],
  [("value type", "src/utils_time.cpp:DateTime")],
  tech="TLA+ state machine of date-time registers; recorded operation sequences of the real class validated with TLC",
  note="random operation sequences in 9 zones; trusts TLC and the C library's zone rules")
