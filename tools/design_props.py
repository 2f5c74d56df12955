"""How each property is decided (for mkdesign.py)."""
H = {}
def h(i, what, oracle, why): H[i] = dict(what=what, oracle=oracle, why=why)
h("S01","every text over a small alphabet of letters, delimiters and all blanks, up to a length, is split, trimmed, upper-cased, compared and put into option maps.","character-level reference splitter and comparer written from the documentation.","unit tests split a handful of sentences; empty fields, trailing and unusual blanks and their combinations are exhausted here.")
h("S02","every text up to a length over digits, signs, points, exponents and separators, boundary numbers around every power of 2 and 10, and every list of items are recognised and converted.","an exact grammar of integers and reals with 128-bit arithmetic; a conversion gives that value or reports failure.","limits and half-formed numbers are where conversions break; tests use plain ones.")
h("S03","every text over octet characters and every combination of octets in every place.","reference recogniser of dotted quads.","the set of wrong addresses is what matters, and tests give five.")
h("S04","every exponent x sign x mantissa lattice of reals and every short decimal is printed and read back; every byte pair, UTF-8 piece sequence, wide character and length is converted in two locales.","exact decimal rounding; an own UTF-8 decoder; AddressSanitizer and balance of memory blocks.","conversions outside ASCII and at extreme magnitudes are never tested.")
h("T01","every day of thousands of years through the pure calendar functions; instants in 9 time zones.","proleptic Gregorian calendar by day counting; POSIX time-zone rules computed independently.","tests sample about ten dates.")
h("T02","instants (every hour of twelve years, every second around changes) formatted and parsed in all formats and zones.","independent formatter and parser on the calendar of T01.","daylight-saving changes, month ends and mismatching formats are exhausted.")
h("T03","`DateTime` objects built from components and instants, shifted in every sequence of forward and backward steps, compared pairwise; the clock is a stand-in (`--wrap=time`).","calendar arithmetic on instants.","sequences of shifts and components at the ends of ranges are beyond single examples.")
h("F01","every path put together from a set of awkward directory and leaf names is taken apart and rebuilt.","reference path algebra; rebuilding must give the same file.","dots in directories, hidden files and relative parts multiply.")
h("F02","every small tree of files, hidden files, nested, read-only and linked directories is built in a scratch directory; each operation (and sequences of them) runs on it.","a model of the tree, compared entry by entry with the directory after every operation, including that nothing else changed.","what must *not* be deleted or created is a statement about all trees.")
h("F03","every text of tokens (line ends of all kinds, comments, blanks), every byte, line breaks around buffer sizes; short, failing and interrupted reads.","reference line splitter; a failing read is reported.","tests read one file; buffer boundaries and faults are unreachable for them.")
h("A01","every small shape and element-type pair is allocated, copied and released, with each single allocation failing.","plain vectors; balance of memory blocks.","allocation failures and jagged shapes are never tested.")
h("A02","every sequence of build, copy, move, assign, write and destroy on three `Array2D` objects.","vectors of vectors per object; AddressSanitizer; balance of memory blocks.","aliasing shows only in histories.")
h("A03","every small shape and progression of values is written; every well-formed text over spellings, separators and row lengths is read; what is written is read back.","an own rendering to six digits; the enumerated values themselves; AddressSanitizer; balance of memory blocks.","never reached by tests; the readers are templates compiled into the harness.")
h("N01","every vector up to a length over the extremes of each type and excluded values; tables by layer.","long-double recomputation over the valid values.","extremes of types and every placement of no-data.")
h("N02","every positive float (square root) or a dense complete lattice over the whole exponent range (others).","libm, within the documented error.","tests try ten arguments.")
h("R01","every layout of header and values, every byte edit and truncation of valid files is read through the array reader and the raster objects.","an independent parser that says grid, not a grid, or unspecified.","malformed files are unbounded; edits at every byte cover what a corrupted file can look like.")
h("R02","every small grid and no-data pattern x start values x georeferences x ways of writing is written as ASCII grid and read back by an independent reader in the harness and by the library.","the grid itself.","loss of digits or of no-data shows only with particular values.")
h("R03","every pair of source and requested type x no-data x values at the limits of types is exported as GeoTIFF, read back through GDAL directly and by the library.","exact representability of each value in the requested type.","limits of types across types are a large product that tests do not enter.")
h("R04","every no-data pattern x every way of creating a raster; then every getter by index, row and column, coordinate, position list; then writes.","the grid; all accessors must agree.","the agreement of dozens of accessors over all patterns.")
h("R05","every origin, cell size and dimension; points inside every cell and beyond every border; every column of wide rows close to its borders.","exact cell arithmetic.","floating-point cell borders and the outermost half cells.")
h("R06","every pattern pair of mask and source in every relative position, both extents, compact or not.","`harness/rmask.hpp`: which mask cells are kept, which source cell lies at each, which value it gets.","masking multiplies patterns, alignments and options; tests have one mask.")
h("R07","every placement of no-data in several layers, read with and without masks; layers of other dimensions and positions; each layer unreadable.","values by location per layer.","layers that differ from the first are never tested.")
h("R08","every sequence of changing operations on rasters stored in each way.","a grid with the same operations applied.","orders of operations.")
h("R09","every grid and every order of asking statistics; histories of changes and queries.","recomputation over the model grid.","caching shows only in histories.")
h("R10","every sequence of creating, copying, masking, changing and releasing over three objects with shared positions and subsets.","contents of every live object after every step; AddressSanitizer; balance of memory blocks.","ownership errors are properties of histories.")
h("R11","every zone pattern x way of storing x grouping; histories of building, rebuilding, releasing.","zones of the grid: cells, positions, bounding boxes.","partition statements over all patterns.")
h("R12","every zone pattern, way of coming by subsets and thing to write, one by one or combined, with unusable subsets.","the grid that results from the documented operation, in the files written.","combinations of options and patterns.")
h("R13","every operation on the output files failing at every place, once and persistently; space running out after every byte.","status *success* implies the complete file; failure is reported; the raster in memory is unchanged; a later output succeeds.","faults cannot be provoked from unit tests.")
h("R14","raster files of every data type, no-data declaration, layout and limit value are written with GDAL alone and read through the function and through every way of making an object; damaged files; written again.","the numbers the file was made of; GDAL's own answer for the reference system; balance of memory blocks and open files.","ten reading branches, one of which the tests run.")
h("C01","every schedule (up to commuting steps) of every parallel region on small data, by dynamic partial-order reduction.","the serial result, which every schedule must give.","tests run under whichever schedule happens.")
h("X01","the tool's `main` runs in the checking process on every combination of modes and options in both argument styles, and on every truncation of argument lists.","the documented operation computed by the reference models of R06, R08 and R12, on the files written, and the exit status.","the tool has no tests.")
h("M01","every history of storing and removing over names, contents, metadata and filters on the stand-in store; then everything is read and listed.","a list of stored versions.","needs a server in the tests; histories with filters were never run.")
h("M02","every choice of failing driver calls in every client and file operation.","failure is reported or the result is right; balance of handles and memory.","failures of a driver cannot be provoked in tests.")
h("M03","every small raster, subset, mask and type combination is stored and read back; odd documents; failing calls.","the grid itself, the bytes and metadata in the store, and the reference masking of R06.","never run without a server.")
h("M04","every text and boundary number as option value, every field type through every typed reader.","exact values, by the rules of S02 and T02.","never reached by tests without a server, with boundary numbers or mismatched types.")
COST = dict(S01=4, S02=4, S03=4, S04=10, T01=6, T02=10, T03=6, F01=4, F02=20, F03=6, A01=6, A02=7, A03=8, N01=6, N02=8, R01=60, R02=24, R03=45, R04=40, R05=40, R06=80, R07=50, R08=60, R09=45, R10=65, R11=60, R12=70, R13=60, R14=60, C01=90, X01=60, M01=9, M02=30, M03=90, M04=9)
for i in H: H[i]["cost"] = "about %d s for the quick check on 8 cores, compilation included." % COST[i]
