#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe_at, "hook_needed": None}})

# ------------------------------------------------------------------ strings, numbers
prop("S01", "Splitting, trimming and comparing text is exact",
     "Splitting text at a delimiter returns exactly the delimiter-free fields in order (only an empty field after the last delimiter is dropped), splitting at blanks returns exactly the maximal blank-free words, and trimming removes exactly the leading and trailing blanks. Case-insensitive comparison agrees with equality of the upper-cased texts, and merging an option map into another changes exactly the merged keys.",
     ["inputs"], "every string up to a bounded length over an alphabet of letters of both cases, digits, each blank character and the delimiters",
     "The unit tests try a handful of well-formed strings; none ends in a blank, has empty fields, or is only blanks, and configuration lines, GridFS names and path handling all rely on these functions for arbitrary text.",
     ["src/utils_string.cpp", "src/utils_string.h"],
     [("SplitString(delimiter) / SplitString(blanks)", "src/utils_string.cpp: SplitString"), ("Trim, TrimSpaces, StringMatch, GetUpper", "src/utils_string.cpp"), ("CopyStringMap, UpdateStringMap", "src/utils_string.cpp")],
     ["return values of the public string functions"])
prop("S02", "Number-text conversions are inverse, and only numbers are accepted",
     "Printing an integer of any supported width, narrow or wide, and parsing the text back gives the same number with success; a text is accepted as an integer exactly when it is the canonical decimal of a number the type can hold, and as a real exactly when the whole non-empty text is a number. Parsing a delimited list yields exactly the listed numbers and reports failure when some item is not numeric.",
     ["inputs"], "every text up to a bounded length over digits, signs, dot, exponent and blank characters, plus every boundary value of each integer width and its neighbours",
     "The tests convert a few sample numbers; they never reach the type limits, embedded garbage, sign or zero-padding variants, or the empty text.",
     ["src/utils_string.cpp", "src/utils_string.h"],
     [("itoa..u64toa / itow..u64tow, ftoa, wtoa/atow", "src/utils_string.cpp"), ("IsInt, IsInt64, IsUInt, IsUInt64, IsDouble, IsNumber, ToInt..ToDouble", "src/utils_string.cpp, src/utils_string.h"), ("SplitStringForValues", "src/utils_string.h")],
     ["returned value and success flag"])
# ------------------------------------------------------------------ time
prop("S04", "Reals and wide texts convert to text and back",
     "Printing any finite real number as narrow or wide text gives its decimal rounded to six places without superfluous zeros, and reading that text back gives the number to within the rounding. Converting a text between narrow and wide characters and back gives the same text for every text the current locale can express; one it cannot express converts to nothing (but for characters the locale ignores), is never taken for a number, and neither kind ever touches memory outside the result or leaves memory allocated.",
     ["inputs", "configurations"], "every exponent and sign of real numbers with a lattice of mantissas, every short byte sequence and every wide character in two locales",
     "Tests convert a handful of plain ASCII numbers; buffer sizes matter only at extreme magnitudes, and encodings only outside ASCII.",
     ["src/utils_string.cpp", "src/utils_string.h"],
     [("ftoa, ftow, _gcvt_s", "src/utils_string.cpp"), ("wtoa, atow", "src/utils_string.cpp")],
     ["returned texts and numbers, memory"])
prop("T01", "Calendar arithmetic is correct for every day",
     "For every calendar day, leap-year classification, Julian day number, day of year and the year/month/day decomposition of a time stamp agree with the proleptic Gregorian calendar, and composing a date into a time stamp and decomposing it again returns the same date, in UTC and in local time, keeping no memory behind.",
     ["inputs", "configurations"], "every day over several centuries, every second-boundary around midnight, under each time-zone configuration explored",
     "The tests check one date in one time zone; errors at century years, month ends, leap days, negative time stamps and zone offsets stay invisible.",
     ["src/utils_time.cpp", "src/utils_time.h"],
     [("IsLeapYear, JulianDay, DayOfYear", "src/utils_time.cpp, src/utils_time.h"), ("GetYear/GetMonth/GetDay, GetDateInfoFromTimet, ConvertYMDToTime", "src/utils_time.cpp")],
     ["return values"])
prop("T02", "Time text conversion round-trips in every time zone",
     "Formatting a time stamp as text and parsing that text back yields the same instant (to the resolution of the format), in UTC and in local time, including the hours around daylight-saving changes and month ends, for each of the supported text formats; no conversion keeps memory behind.",
     ["inputs", "configurations"], "every hour of whole years (and every day of several decades) in each explored time zone, northern and southern daylight saving included, for each format",
     "Tests format a single instant, and only in UTC unless the machine happens to be at UTC+8; the daylight-saving branches never execute.",
     ["src/utils_time.cpp"],
     [("ConvertToString, ConvertToString2, ConvertToString3", "src/utils_time.cpp"), ("ConvertToTime", "src/utils_time.cpp")],
     ["returned text and time stamp"])
prop("T03", "Date-time values order and shift consistently",
     "A date-time built from its components reports exactly those (normalised) components, weekday and day of year; rebuilding it from its own absolute time gives an equal value; moving it forward or backward by a number of milliseconds changes its absolute time by exactly that amount; and the comparison operators agree with chronological order; no operation keeps memory behind.",
     ["inputs", "histories"], "all boundary combinations of date, time-of-day and millisecond components, all boundary shifts, all pairs for the order, and every forward/backward sequence up to a bounded length",
     "The date-time type has no tests at all; shifts, carries across seconds, days and years, and ordering form an unbounded input space.",
     ["src/utils_time.cpp", "src/utils_time.h"],
     [("DateTime::FromDateTime, FromFileTime, Forward, Backward, comparison operators", "src/utils_time.cpp, src/utils_time.h")],
     ["public members of the date-time value"])
# ------------------------------------------------------------------ filesystem
prop("F01", "Path decomposition and rebuilding agree",
     "For every file name, the directory, core name and suffix are exactly the parts around the last separator and the last dot of the file name itself (dots in directory names never count); joining them rebuilds the name, replacing the suffix changes only the suffix, and adding a prefix or postfix changes only the core name; the application path is the directory of the running program, wherever it is asked from.",
     ["inputs"], "every absolute and relative path up to a bounded number of components over names with zero, one and several dots, existing or not on disk",
     "Tests use a couple of well-formed names; dots in directories, names without suffix, several dots and non-existing paths are the inputs that break string-based path code.",
     ["src/utils_filesystem.cpp"],
     [("GetCoreFileName, GetSuffix, GetPathFromFullName", "src/utils_filesystem.cpp"), ("ConcatFullName, ReplaceSuffix, AppendCoreFileName, PrefixCoreFileName", "src/utils_filesystem.cpp")],
     ["returned strings"])
prop("F02", "File and directory operations affect exactly what they name",
     "Existence tests answer truthfully for files and directories; creating, cleaning and deleting a directory, deleting a file and listing files by suffix change or report exactly the entries they are documented to (cleaning removes the visible files directly inside and nothing else, recursive deletion removes the whole subtree, non-recursive deletion leaves non-empty subdirectories alone), and nothing outside the named tree is ever touched; no operation keeps memory or an open directory behind.",
     ["histories", "configurations"], "every small directory tree (files with various suffixes, hidden files, nested and empty directories) and every operation sequence up to a bounded length on it",
     "The tests exercise one happy-path directory; which entries disappear depends on the shape of the tree and on the history of operations.",
     ["src/utils_filesystem.cpp"],
     [("FileExists, FilesExist, PathExists, DirectoryExists", "src/utils_filesystem.cpp"), ("MakeDirectory, CleanDirectory, DeleteDirectory, DeleteExistedFile, FindFiles", "src/utils_filesystem.cpp")],
     ["file tree before and after", "return values"])
prop("F03", "Plain-text loading keeps exactly the meaningful lines",
     "Loading a plain-text file yields, in order, exactly its trimmed lines that are neither blank nor comments, whatever the line endings and whether or not the last line is terminated; a missing or unreadable file is reported as failure, and loading always terminates.",
     ["inputs", "fault_sequences"], "every file content up to a bounded length over letters, blanks, comment marks, carriage returns and newlines; missing file, directory instead of file, read errors",
     "Tests never load a file at all; the result depends on line terminators, final newline and error conditions.",
     ["src/utils_filesystem.cpp"],
     [("LoadPlainTextFile", "src/utils_filesystem.cpp")], ["returned lines and status"])
prop("S03", "Network addresses are accepted exactly when they are dotted quads",
     "An address text is accepted exactly when it consists of four decimal numbers between 0 and 255 separated by single dots and nothing else.",
     ["inputs"], "every text up to a bounded length over digits, dots and other characters, and all boundary octets in each position",
     "Tests try a few addresses; trailing garbage, extra components, and out-of-range octets in each position are not enumerated.",
     ["src/basic.cpp"], [("IsIpAddress", "src/basic.cpp")], ["returned verdict"])
# ------------------------------------------------------------------ arrays / math
prop("A01", "Array helpers allocate, fill, copy and free exactly what is asked",
     "For every size, one- and two-dimensional arrays created from a constant, from another array or from a flat description hold exactly the requested values and can be written over their whole extent; two-dimensional arrays are row-addressable over one contiguous block; releasing any of them frees all their memory once, resets the pointer, and never disturbs other arrays.",
     ["inputs", "histories"], "all sizes up to a bound for each element type and source, and all create/copy/release/re-create sequences up to a bounded length",
     "Tests allocate a few fixed sizes; memory extent, aliasing and ownership errors need every shape and history under memory checking.",
     ["src/utils_array.h"],
     [("Initialize1DArray, Initialize2DArray (constant, array, irregular)", "src/utils_array.h"), ("Release1DArray, Release2DArray, BatchRelease*", "src/utils_array.h")],
     ["array contents", "allocator balance"])
prop("A02", "The dynamic two-dimensional array behaves as a value",
     "A two-dimensional array object keeps its own rows: building it from data, copying, moving, assigning and destroying objects in any order leaves every object with exactly its own contents, never shares or frees memory twice, and membership queries and removals on value lists affect exactly the matching values.",
     ["histories"], "all sequences up to a bounded length of construct, copy, move, assign, write and destroy on a small set of objects of differing shapes",
     "Tests copy one object once; aliasing and double release show only in particular operation orders.",
     ["src/utils_array.h"],
     [("Array2D", "src/utils_array.h"), ("ValueInVector, RemoveValueInVector", "src/utils_array.h")],
     ["element values", "allocator balance"])
prop("A03", "Arrays written as text and read from text keep shape and values",
     "For every array, the text file written holds exactly one line per row with each value, in order, to six significant digits and nothing of an older file; for every well-formed text, in a file or a string and with any white space between the items, the readers return exactly the announced number of rows, each with its count in front and exactly its values, in memory that can be written over its whole extent and is released completely.",
     ["inputs", "histories"], "all small shapes, values from a set including extremes and rounding edges in every arithmetic progression, all spellings of numbers and separators up to a bound",
     "No test writes or reads an array as text; extent, separators, row lengths and rounding need every shape and spelling.",
     ["src/utils_array.cpp"],
     [("Output1DArrayToTxtFile, Output2DArrayToTxtFile", "src/utils_array.cpp"), ("Read1DArrayFromTxtFile, Read2DArrayFromTxtFile, Read2DArrayFromString", "src/utils_array.cpp")],
     ["file bytes", "array contents", "allocator balance"])
prop("N01", "Basic statistics agree with their definitions on every data set",
     "For every data vector, with any placement of the no-data marker, the count, mean, maximum, minimum, range and standard deviation (single and multi-layer), as well as sum, maximum and minimum of arrays, equal their mathematical definitions over the valid values only; with no valid value the count is zero.",
     ["inputs"], "every vector up to a bounded length over a value set with negative, zero, positive, extreme and no-data entries, and every layer arrangement up to a bound",
     "Tests use one vector; all-no-data, leading no-data, all-negative and single-value data each take different branches.",
     ["src/utils_math.cpp", "src/utils_math.h"],
     [("BasicStatistics (1D, 2D), Sum, MaxInArray, MinInArray, Max, Min", "src/utils_math.h")],
     ["returned statistics"])
prop("N02", "Fast math approximations stay within their accuracy",
     "For every normal positive argument the approximate square root stays within a relative error of 1e-6 and the approximate logarithm within an absolute error of 5e-4; the approximate exponential stays within a relative error of 1e-5 for every argument whose result is a normal number, and the approximate power within 0.1 percent for bases from 1e-6 to 2 and exponents from -1 to 1; the square root of 0 is 0 and the exponential of 0 is 1. The bounded exponential and the signed power equal their definitions, and number comparison treats values as equal exactly when they differ by less than 1e-32.",
     ["inputs"], "every representable value of a dense exhaustive grid of bit patterns (all exponents, all leading mantissa bits) in the domain",
     "Tests sample a few arguments; approximations built on bit tricks fail on particular exponents or mantissa ranges only.",
     ["src/utils_math.cpp", "src/utils_math.h"],
     [("ApprSqrt, ApprExp, ApprLn, ApprPow, CalExponential-like helpers, FloatEqual", "src/utils_math.cpp, src/utils_math.h")],
     ["returned values"])
# ------------------------------------------------------------------ raster
prop("R01", "ASCII grids are parsed exactly, and malformed ones are rejected",
     "Any conforming ASCII grid text (any key case and order, corner or centre origin, optional no-data line, any layout of blanks and line breaks) is read with exactly its dimensions, origin, cell size, no-data value and cell values; a text whose header is unusable or whose values do not fill the grid is reported as a failed read, never crashes and never yields made-up cells.",
     ["inputs", "crash_points"], "every combination of header-line order and variants, and every truncation point of small files",
     "Tests read a few well-formed sample files; header variants, truncated files and missing keys are an open-ended input space.",
     ["src/data_raster.hpp", "src/data_raster.cpp"],
     [("ReadAscFile", "src/data_raster.hpp: ReadAscFile"), ("clsRasterData reading constructors and ReadFromFile", "src/data_raster.hpp")],
     ["header map, data array and success flag"])
prop("R02", "Rasters written to ASCII grids read back unchanged",
     "Writing any raster (one or several layers, with or without compact storage of valid cells) to ASCII grids and reading it back gives the same dimensions, origin, cell size and, exactly for integer rasters and to the six printed decimals or digits for real ones, the same no-data value and the same value in every cell of every layer.",
     ["inputs", "configurations"], "all small grids over a value set containing no-data, and all storage configurations and layer counts",
     "Tests write a handful of sample rasters and only check that files exist or compare a few of them.",
     ["src/data_raster.hpp", "src/data_raster.cpp"],
     [("WriteAscHeaders, WriteSingleAsc, OutputAscFile, OutputToFile", "src/data_raster.hpp, src/data_raster.cpp")],
     ["files written, re-read by an independent reader and by the library"])
prop("R03", "Raster export to a data type keeps every value or refuses",
     "Exporting a raster as GeoTIFF in any requested data type either fails, leaving no misleading success, or produces a file of exactly that type whose georeference matches and whose every valid cell equals the original value (to the precision of the type) while every no-data cell is the file's declared no-data; it is refused only when some valid value does not fit the type; whatever the outcome, no memory is kept.",
     ["inputs", "configurations"], "every source type x output type x boundary value around every type limit x no-data inside/outside the target range",
     "Tests write float or double outputs of sample data; the conversion table has more than a hundred type pairs, each with its own range checks.",
     ["src/data_raster.hpp", "src/data_raster.cpp"],
     [("WriteSingleGeotiff", "src/data_raster.hpp"), ("RasterDataTypeToString, StringToRasterDataType, TypeToRasterDataType, DefaultNoDataByType, CvtToGDALDataType", "src/data_raster.cpp")],
     ["GeoTIFF files read back through GDAL"])
prop("R04", "Valid-cell positions index the grid exactly",
     "Whatever way a raster was created, its list of valid cells contains exactly the cells inside its extent that hold data, once each in row-major order; looking up a cell by row and column, by index or by coordinate, reading and writing values one by one or wholesale, all agree with each other and with the source grid, and cells outside the extent or without data are reported as such.",
     ["inputs", "configurations"], "all grids up to a bounded size with every pattern of no-data cells, with and without compact storage, mask and multiple layers, and every (row, column, layer) including out-of-range ones",
     "Tests probe selected cells of fixed sample rasters; the lookup is a search over an index whose edge cases depend on the no-data pattern.",
     ["src/data_raster.hpp"],
     [("GetPosition, GetValue, GetValueByIndex, IsNoData, ValidateRowCol...", "src/data_raster.hpp"), ("CalculateValidPositionsFromGridData, SetCalcPositions", "src/data_raster.hpp")],
     ["public getters"],
     [("valid-cell positions", "(row, column) of each stored cell", "src/data_raster.hpp: pos_data_, pos_idx_")])
prop("R05", "Coordinates and cells convert back and forth",
     "For every raster geometry, every point strictly inside a cell's square maps to that cell's row and column and is reported as outside exactly when it lies outside the raster, and the coordinate reported for a cell is the centre of that cell.",
     ["inputs"], "all small grid shapes, origins and cell sizes, and a lattice of points through, on both sides of, and beyond every cell",
     "Tests convert a few interior points; half-cell offsets at the border cells and outside points are untested.",
     ["src/data_raster.hpp"],
     [("GetPositionByCoordinate, GetCoordinateByRowCol, GetPosition(x, y)", "src/data_raster.hpp")], ["returned row/column/coordinate"])
prop("R06", "Masking keeps exactly the cells the mask selects",
     "A raster read through a mask holds, for every cell of the mask that carries data, the source value at the same location if the source covers it with data, the default value if the source covers it without data, and no-data if it lies beyond the source, and nothing for cells the mask does not select; its extent is the mask's when the mask extent is requested and otherwise the smallest one around the selected cells for which the source holds data, and neither source nor mask is altered.",
     ["inputs", "configurations"], "every pair of small source and mask grids (all no-data patterns and relative offsets, partial and no overlap included) x every combination of the masking options",
     "Four sample masks are tested; the result depends on overlap geometry, both no-data patterns and option combinations.",
     ["src/data_raster.hpp"],
     [("MaskAndCalculateValidPosition", "src/data_raster.hpp"), ("ReadFromFile with mask, SetUseMaskExt, default value", "src/data_raster.hpp")],
     ["public getters of the masked raster"])
prop("R07", "Layers of a multi-layer raster stay aligned",
     "A raster built from several layers reports for every cell and layer exactly the value of that layer's source at the same location, and no-data where that source does not cover it, whichever cells are no-data in which layer and whichever mask applies (cells without data in the first layer may be dropped from the others); a missing or unreadable layer makes the read fail.",
     ["inputs", "configurations"], "every tuple of small layers with all no-data patterns, with and without mask and compact storage, and every permutation of differing sizes",
     "The tests use one fixed three-layer sample; alignment depends on which cells are valid in the first layer and under the mask.",
     ["src/data_raster.hpp"],
     [("ReadFromFiles, multi-layer constructors, AddOtherLayerRasterData", "src/data_raster.hpp")], ["public getters per layer, files written per layer"])
prop("R08", "Raster operations compose as a simple grid of values would",
     "After any sequence of cell writes, no-data replacement, reclassification, type and default changes, position calculation and statistics queries, every cell of every layer holds exactly the value that the same sequence gives on a plain grid of values.",
     ["histories"], "all operation sequences up to a bounded depth over a small raster in each storage configuration",
     "Tests apply each operation once to a fresh raster; interactions between operations are never exercised.",
     ["src/data_raster.hpp"],
     [("SetValue, ReplaceNoData, Reclassify, SetCalcPositions, SetPositions, SetNoDataValue...", "src/data_raster.hpp")], ["public getters after each step"])
prop("R09", "Raster statistics always describe the valid cells",
     "Statistics requested from a raster equal their definition over its valid cells (per layer for multi-layer rasters), with or without compact storage, and after an explicit refresh they describe the current values whatever operations came before.",
     ["inputs", "histories"], "all small grids over a value set with no-data, in every storage configuration, interleaved with value changes",
     "Tests compare the statistics of sample rasters with constants; all-no-data, single-cell and post-modification cases are untested.",
     ["src/data_raster.hpp", "src/utils_math.h"],
     [("CalculateStatistics, UpdateStatistics, GetStatistics and named getters", "src/data_raster.hpp"), ("BasicStatistics", "src/utils_math.h")], ["public statistics getters"])
prop("R10", "Raster objects own their data independently",
     "Copies of a raster, rasters sharing a mask, masks and subsets can be modified and destroyed in any order (a raster that took its extent and positions from a mask object goes before the mask) without affecting the others' values; every byte is released exactly once and nothing is used after release.",
     ["histories"], "all sequences up to a bounded depth of create, mask, copy-construct, assign, modify and destroy over a small set of objects",
     "Tests destroy objects in one fixed order and without memory checking.",
     ["src/data_raster.hpp"],
     [("Copy, copy constructor, assignment, destructor, SubsetPositions", "src/data_raster.hpp")], ["public getters", "allocator balance"])
prop("R11", "Decomposition partitions the valid cells by zone",
     "Decomposing a zone raster yields one subset per distinct zone value; the subsets' cell lists are disjoint, together cover exactly the valid cells, and each subset's row/column bounds, geographic header and local-to-global cell mapping are the exact bounding box of its cells; rebuilding after releasing gives the same result.",
     ["inputs", "histories"], "every zone pattern (including no-data) on all small grids, every explicit grouping of zones, and every build/rebuild/release sequence up to a bounded length",
     "One sample watershed map is decomposed in tests; shapes that wrap around, touch borders or enclose holes are not enumerated.",
     ["src/data_raster.hpp", "src/data_raster.cpp"],
     [("BuildSubSet, RebuildSubSet, ReleaseSubset, SubsetPositions", "src/data_raster.hpp, src/data_raster.cpp")], ["GetSubset, positions, headers"])
prop("R12", "Decompose, reclassify and recombine lose nothing",
     "Writing a raster subset by subset and combining the pieces again reproduces the original cell for cell, each subset file covers exactly its bounding box with no-data elsewhere, subset reclassification gives every cell of a subset its mapped value (or the default), and subsets marked unusable contribute only default values. Data assigned to a subset, in one or several layers and any number of times, replace what it had before; data of the wrong size are refused and change nothing.",
     ["inputs", "configurations"], "every zone pattern on all small grids x one and several layers x every usable/reclassification combination",
     "The tests split and merge one sample raster with one reclassification.",
     ["src/data_raster.hpp", "src/data_raster.cpp"],
     [("OutputSubsetToFile, OutputFullsizeToFiles, PrepareSubsetData, PrepareCombSubsetData, OutputToFile", "src/data_raster.hpp"), ("SubsetPositions::SetData/Set2DData/GetHeader/Output", "src/data_raster.cpp, src/data_raster.hpp")],
     ["files written, re-read"])
prop("R13", "Failed raster output is never reported as success",
     "If any step of writing a raster to disk fails (the file cannot be created, space runs out at any point, or the target directory is missing and cannot be made), the write reports failure and does not crash; a reported success means the complete file is on disk.",
     ["fault_sequences", "crash_points"], "every single failing system call during the output of small rasters to each format, and each failing call after which all later ones fail too",
     "Tests never inject a fault; disk-full and permission failures are outside what unit tests on a healthy disk can show.",
     ["src/data_raster.hpp", "src/data_raster.cpp"],
     [("WriteAscHeaders, WriteSingleAsc, WriteSingleGeotiff, OutputToFile", "src/data_raster.hpp, src/data_raster.cpp")], ["return value against the file on disk"])
prop("R14", "GeoTIFFs are read as they are, and unreadable ones are refused without a trace",
     "Reading a single-band raster file that GDAL can open, of any integer or real data type, in any file layout, gives exactly the file's dimensions, georeference, spatial reference, data type, declared no-data value (the type's default if none is declared) and every cell value that the element type can hold, whichever constructor or reading function is used and whatever memory held before; writing the raster again keeps its data type and spatial reference. A file that cannot be opened, cannot be read to the end or has an unsupported data type is reported as a failed read. Neither way leaves memory allocated or files open.",
     ["inputs", "configurations", "crash_points"], "every data type x no-data declaration x value around every type limit x element type x way of reading x file layout, and every kind of damaged file",
     "Tests read a few float GeoTIFFs; each of the ten data types has its own reading branch and most are never run.",
     ["src/data_raster.hpp", "src/data_raster.cpp"],
     [("ReadRasterFileByGdal", "src/data_raster.hpp"), ("ConstructFromSingleFile, ReadFromFile, Init", "src/data_raster.hpp"), ("DefaultNoDataByType", "src/data_raster.cpp"), ("SetProjection in WriteSingleGeotiff", "src/data_raster.hpp")],
     ["header map, values, public getters, files written again, open files and memory"])
prop("C01", "Parallel loops give the sequential result under every schedule",
     "For every number of worker threads and every interleaving of their steps, array initialisation, sums, statistics, masking, no-data replacement, reclassification, statistics of rasters, and type-converting output to files and to the document store produce exactly the result of sequential execution.",
     ["schedules"], "all interleavings (up to commuting independent steps) of the parallel regions' memory accesses with 1 to a bounded number of threads on small data",
     "Tests run each loop under whichever schedule the machine happens to pick; a lost update or an unprivatised variable shows up only under particular interleavings.",
     ["src/utils_array.h", "src/utils_math.h", "src/data_raster.hpp"],
     [("OpenMP parallel loops and reductions", "src/utils_array.h, src/utils_math.h, src/data_raster.hpp")], ["results of the public operations"])
prop("X01", "The raster tool's command line and config file do what they say",
     "For every combination of its modes and options (masking, decomposing, combining, reclassification, default, no-data and data-type settings), the command-line tool writes exactly the rasters that the documented operation gives on the inputs; arguments given on the command line and the same ones in a configuration file have the same effect; bad arguments end with an error code, never a crash.",
     ["configurations", "inputs"], "all combinations of the documented options over small inputs, in both argument styles, plus every truncation of a valid argument list",
     "The tool has no tests; its option parser multiplexes many optional positional fields.",
     ["apps/mask_rasterio.cpp", "apps/mask_rasterio.h"],
     [("main, parse_fmt_paths, parse_key_values", "apps/mask_rasterio.cpp")], ["files written and exit status"])
# ------------------------------------------------------------------ MongoDB
prop("M01", "The GridFS store returns exactly what was stored",
     "After any sequence of storing, removing and reading named files in the document store (with metadata filters or without), reading a name returns exactly the bytes and metadata of a stored, not removed version that matches the name and the filter (hence of the last one, when it was overwritten by removing and storing) and fails when there is none; listing returns exactly the stored names; removal takes away exactly the matching versions; names of databases, collections and buckets are reported unchanged; and everything obtained is released exactly once.",
     ["histories"], "all operation sequences up to a bounded depth over a few names, contents and metadata filters against a model of the store",
     "The MongoDB tests need a live server and are never run here; histories with overwrites, removals and filters are untested.",
     ["src/db_mongoc.cpp", "src/db_mongoc.h"],
     [("MongoGridFs::WriteStreamData, GetStreamData, GetFile, RemoveFile, GetFileNames, GetFileMetadata", "src/db_mongoc.cpp")], ["public client API over a stand-in driver"])
prop("M02", "Document-store failures are reported and leak nothing",
     "When any call to the database driver fails or a transfer is cut short, the operation reports failure (never fabricated data or success), does not crash, and every driver handle obtained is released exactly once.",
     ["fault_sequences"], "every single and double failure point in the sequence of driver calls made by each operation",
     "Driver failures cannot be provoked from unit tests without a controllable server.",
     ["src/db_mongoc.cpp", "src/db_mongoc.h"],
     [("MongoClient, MongoDatabase, MongoCollection, MongoGridFs", "src/db_mongoc.cpp")], ["return values, handle accounting in the stand-in driver"])
prop("M03", "Rasters stored in the document store read back unchanged",
     "Storing a raster (whole, with or without its no-data cells, single or multi-layer, or subset by subset) and reading it back gives the same geometry, no-data value, metadata options and cell values, in the requested data type, under any mask.",
     ["inputs", "configurations"], "all small grids and no-data patterns x layer counts x include-no-data and subset options x output types",
     "Needs a live server in the tests; never run.",
     ["src/data_raster.hpp", "src/db_mongoc.cpp"],
     [("OutputToMongoDB, OutputSubsetToMongoDB, ReadFromMongoDB, ReadGridFsFile, WriteStreamDataAsGridfs", "src/data_raster.hpp")], ["public raster getters after a round trip through a stand-in driver"])
prop("M04", "Metadata fields keep their values through the document format",
     "Any option map written into a document is read back with the same keys and values: integers as integers, reals as reals, truth values as the same truth value, times as the same instant, texts unchanged; reading a field of another type converts it faithfully or reports failure.",
     ["inputs"], "every text up to a bounded length over a numeric alphabet plus boundary numbers, every BSON value type crossed with every typed reader",
     "Tests (server-bound) never reach these helpers with boundary numbers or mismatched types.",
     ["src/db_mongoc.cpp", "src/db_mongoc.h"],
     [("AppendStringOptionsToBson, GetNumericFromBson*, GetStringFromBson*, GetBoolFromBson*, GetDateTimeFromBson*", "src/db_mongoc.cpp")], ["returned values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
