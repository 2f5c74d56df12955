"""What each check compiles and within which bounds it explores (see DESIGN.md)."""
SRC = ["src/basic.cpp", "src/utils_string.cpp", "src/utils_filesystem.cpp", "src/utils_time.cpp", "src/utils_math.cpp", "src/utils_array.cpp", "src/data_raster.cpp"]
STR = ["src/basic.cpp", "src/utils_string.cpp"]
SPECS = {}
SPECS["S01"] = dict(level="model_checking", harness=["s01.cpp"], sources=STR, libs=[],
    bounds={"quick": "all strings of length <= 5 (fields) / <= 6 (words, trim) over 7 characters incl. every blank; all byte pairs for upper-casing; all string pairs of length <= 2 over 11 characters; all option-map pairs over 3 keys; texts, fields and words of 37 lengths up to 70000 and maps of up to 3000 entries",
            "thorough": "as quick with length <= 7 and 4 delimiters; string pairs of length <= 3"})
SPECS["S02"] = dict(level="model_checking", harness=["s02.cpp"], sources=STR, libs=[],
    bounds={"quick": "all texts of length <= 5 over {0 1 9 - + . e blank , x}; every 2^k and 10^k +-3 with decorations; every list of <= 4 items from 10 item texts, 4 element types; 12 forms of text with runs of 30 lengths up to 65537, lists of up to 4097 values",
            "thorough": "texts of length <= 7; lists of <= 5 items"},
    assumptions=["C hexadecimal real notation is not judged", "IsInt/IsUInt must accept the 32-bit range and may accept the 64-bit range of their return type, never with a wrong value"])
SPECS["S03"] = dict(level="model_checking", harness=["s03.cpp"], sources=STR, libs=[],
    bounds={"quick": "all texts of length <= 11 over {2 5 .}; 3..5 octets with 28 octet texts in one position and 6 in the others; every byte at every place of a valid address",
            "thorough": "all texts of length <= 10 over {0 2 5 9 .}; 12 octet texts in the other positions"},
    assumptions=["octets with superfluous leading zeros are not judged"])
SPECS["S04"] = dict(level="model_checking", harness=["s04.cpp"], sources=STR, libs=[],
    bounds={"quick": "reals: every binary exponent x 32 mantissas x both signs, every decimal of up to 3 places (2000 of 4..7 places) behind 12 whole parts, 20 special numbers; texts: every one or two bytes, every sequence of <= 4 of 12 pieces (ASCII, UTF-8 of 2..4 bytes, broken sequences), lengths up to 600, in the C and the UTF-8 locale; wide characters: the first 2048 and every fifth up to U+10FFFF in 4 surroundings", "thorough": "512 mantissas; sequences of 5; every wide character"},
    assumptions=["texts without null characters", "a text that has no counterpart converts to nothing"])
TIME = ["src/basic.cpp", "src/utils_string.cpp", "src/utils_time.cpp"]
SPECS["T01"] = dict(level="model_checking", harness=["t01.cpp"], sources=TIME, libs=[],
    bounds={"quick": "every day of years 1..3200 (pure functions), every day 1880..2110 at 3 seconds of the day in 9 zones, UTC and local; every half hour of 1999..2005 in 9 zones; memory kept by each call",
            "thorough": "years 1..9999; 1600..2500; 1999..2028"},
    assumptions=["time zones are POSIX rules with whole-hour daylight saving", "GetDateInfoFromTimet gives the standard-time date, like the text conversions"])
SPECS["T02"] = dict(level="model_checking", harness=["t02.cpp"], sources=TIME, libs=[],
    bounds={"quick": "every hour of 1998..2009 in 9 zones, UTC and local, 3 formats, 7 parses; every second near month ends and daylight-saving changes 1999..2004; every day 1800..2200; memory kept by each call",
            "thorough": "every quarter hour 1970..2037, changes 1999..2030, every day of years 1000..9999"},
    assumptions=["time zones are POSIX rules with whole-hour daylight saving; local text is standard time, as the formatter and the parser both take it"])
SPECS["T03"] = dict(level="model_checking", harness=["t03.cpp"], sources=TIME, libs=["-Wl,--wrap=time,--wrap=gettimeofday"],
    bounds={"quick": "8 years x 12 months x 8 days x boundary times in 9 zones; every half hour of 2003-2004; every forward/backward sequence of length <= 3 over 15 shifts from 6 starts; all pairs of 15 instants; the clock at 4 times of 732 days; memory kept by each of 8 calls",
            "thorough": "every half hour of 2003-2012; sequences of length <= 4; 3660 days"},
    assumptions=["instants from 1970 on (the absolute time is unsigned)", "components that name an hour skipped or repeated by daylight saving are not judged"])
FS = ["src/basic.cpp", "src/utils_string.cpp", "src/utils_filesystem.cpp"]
SPECS["F01"] = dict(level="model_checking", harness=["f01.cpp"], sources=FS, libs=[],
    bounds={"quick": "all paths of <= 2 directories from 8 names and a leaf from 9 names, absolute/relative, existing or not; the application path from 3 working directories, asked 1..3 times", "thorough": "<= 3 directories"},
    assumptions=["no symbolic links in the path; a name ending in a dot is not required to be rebuildable"])
SPECS["F02"] = dict(level="model_checking", harness=["f02.cpp"], sources=FS, libs=[],
    bounds={"quick": "all trees from 5 plain/hidden files, 7 subdirectory shapes (nested, read-only, hidden, named like a file), 3 link shapes; 26 operations in 6 path styles, with memory and open directories counted; all sequences of 2 operations on a fifth of the trees", "thorough": "sequences of 3 operations over 16"},
    assumptions=["wildcards other than a suffix are not judged", "non-recursive deletion may remove or leave an empty subdirectory", "the named directory itself is not a symbolic link"])
SPECS["F03"] = dict(level="model_checking", harness=["f03.cpp"], sources=FS, libs=[],
    bounds={"quick": "all texts of 2..7 tokens from {a b # blank LF CRLF tab}; every byte at 4 places; line breaks within 3 bytes of 8 buffer sizes; at most 1,2,3,7,4000 bytes per read, a read error or interruption at each of the first 12 reads; 6 kinds of unreadable path", "thorough": "texts of up to 8 tokens"},
    assumptions=["a carriage return not followed by a line feed is not judged"])
ARR = ["src/basic.cpp", "src/utils_array.cpp"]
SPECS["A01"] = dict(level="model_checking", harness=["a01.cpp"], sources=ARR, libs=[],
    bounds={"quick": "15 sizes x 8 type pairs (vectors), shapes up to 6x6, 300x6, 6x300, 42x42 x 6 type pairs, every flat description of <= 4 rows of <= 3 values, every refusal incl. failure of each allocation, batches of <= 4", "thorough": "flat descriptions of <= 5 rows"},
    assumptions=["the batch helpers are called with a null terminator, as documented"])
SPECS["A02"] = dict(level="model_checking", harness=["a02.cpp"], sources=ARR, libs=[],
    bounds={"quick": "every sequence of <= 4 operations (build, copy, move, assign, self-assign, write, destroy) on 3 objects and 3 shapes, 3 element types; every list of <= 5 values; arrays of 8 shapes up to 70000 elements per row, column or array in 9 uses", "thorough": "sequences of 5, lists of <= 7"},
    assumptions=["a moved-from object may hold anything consistent"])
SPECS["A03"] = dict(level="model_checking", harness=["a03.cpp"], sources=["src/basic.cpp"], libs=[],
    bounds={"quick": "writing: shapes of <= 4 x 3, every arithmetic progression through 16 values (signed zeros, extremes, rounding edges), new and existing files; reading int, float and double from files and strings: <= 4 rows of <= 2 values, 7 spellings per type in every progression, 6 separators, with and without trailing separator; writing and reading back", "thorough": "rows of <= 3 values"},
    assumptions=["the text is well formed (its counts are true); finite values"])
MATH = ["src/basic.cpp", "src/utils_math.cpp"]
SPECS["N01"] = dict(level="model_checking", harness=["n01.cpp"], sources=MATH, libs=[],
    bounds={"quick": "every vector of length <= 5 over 7 values incl. the extremes of the type and 3 excluded values, 6 element types; every table of <= 4 rows x 1..3 layers; 20 lengths up to 200000 x 8 placements of excluded values x 5 places of the extremes, tables of up to 300 layers", "thorough": "vectors of length <= 6, tables of <= 6 rows"},
    assumptions=["with no valid value only the count is judged"])
SPECS["N02"] = dict(level="model_checking", harness=["n02.cpp"], sources=MATH, libs=[],
    bounds={"quick": "every positive normal float (square root), every third (logarithm), doubles: all exponents x 4096 mantissas x 2; exponential: 20000 points per unit over the whole range; power: 21 binades x 8192 bases x 201 exponents", "thorough": "every positive normal float; 10 times denser otherwise"},
    assumptions=["negative, zero, subnormal and non-finite arguments of the logarithm and square root are not judged (except sqrt 0)"])
RAS = SRC
SPECS["R04"] = dict(level="model_checking", harness=["r04.cpp"], sources=RAS, parts=6,
    bounds={"quick": "every no-data pattern of 9 shapes up to 2x3 and 1x5 (8 element types and layer counts) x 12 ways of creation x 4 ways of getting positions, then wholesale writing; every sequence of <= 2 single-cell writes on 3 shapes; every pair of readings into one object; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000 (small ones also with 12 layers)", "thorough": "shapes up to 3x3, 3 layers, sequences of 3 writes or readings"},
    assumptions=["a raster without any valid cell has no positions and is judged only without them", "cells without data in the first layer are no-data in all layers of rasters read from several files", "writing to a no-data cell while positions are calculated is refused, as documented"])
SPECS["R01"] = dict(level="model_checking", harness=["r01.cpp"], sources=RAS,
    bounds={"quick": "every combination of 9 dimensions x 2 origins x no-data line x 9 layouts x 3 key cases x 2 line breaks; every order of the header lines; 47 number texts at every value and header place; 22x22 declared dimensions x 0..9 values; each header line dropped, repeated, misspelled, split, moved; truncation at every byte; every byte of 3 texts removed, replaced by or preceded by 13 bytes; read in 3 element types and as raster objects; 6 large grids up to 129x130 and 2x35000 in 9 layouts with 8 kinds of damage",
            "thorough": "pairs of number texts; pairs of byte edits"},
    assumptions=["not judged: repeated or trailing header items, header lines behind values, hexadecimal/inf/nan/overflowing numbers, dimensions in a non-canonical form, a carriage return alone", "a missing no-data line leaves the no-data value to the implementation"])
SPECS["R02"] = dict(level="model_checking", harness=["r02.cpp"], sources=RAS, parts=8,
    bounds={"quick": "every no-data pattern of 6 shapes up to 2x2 and 3x1 x 30 start values (integers, fractions, extremes) x 2..4 no-data values x 8 georeferences with up to 16 digits x compact or not, 8 element types, 1..3 layers; 6 ways of writing (copy, over existing files, new directories, relative path); read by an independent reader and by the library; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000 (small ones also with 12 layers)", "thorough": "all patterns in every way of writing"},
    assumptions=["values and the no-data value of real-valued grids are compared to the 6 printed digits, georeferences to 1e-9", "valid values that print like the no-data value are not used", "layer files may be numbered from 0 or 1"])
SPECS["R03"] = dict(level="model_checking", harness=["r03.cpp"], sources=RAS, parts=6,
    bounds={"quick": "10 source types x 10 requested types (and none) x up to 6 no-data values x every value of a list of up to 42 (0, +-1, the limits of every type +-1, fractions, beyond float) x 4 partners or alone x 5 ways of exporting; stretches of zeros, no-data, ones and values in every arrangement of three on rasters larger than a block (5 source types); memory kept by repeated exports, by type pair, fitting or not, to 4 kinds of path", "thorough": "every pair of values"},
    assumptions=["fractions exported to integer types may be rounded either way and are not tried at the limits of a type", "values which the requested type cannot tell from the no-data value are not used"])
SPECS["R14"] = dict(level="model_checking", harness=["r14.cpp"], sources=RAS, parts=6,
    bounds={"quick": "files of 10 data types x 6 no-data declarations (none, usual, a limit, outside the type, two of the values) x every value of a list of up to 38 around the limits of all types, alone or with a partner, 4 shapes, 6 file layouts (strips, tiles, compressed, large-file, HFA, several bands), 4 georeferences, 3 reference systems x 10 element types x 8 ways of reading (direct with 4 fillings of the stack; as objects with positions, mask, two files, over another raster), then written again; one odd value in any of 144..200 blocks of a larger file; 8 kinds of unreadable file x 12 data types x 4 ways", "thorough": "8 partners per value, every shape"},
    assumptions=["values the element type cannot hold are not judged, nor no-data values beyond it", "values that a double cannot tell from the no-data value are not used", "GDAL's 8-bit type may be taken as signed when all values fit", "without a declared no-data value the type's default stands for it"])
SPECS["R05"] = dict(level="model_checking", harness=["r05.cpp"], sources=RAS,
    bounds={"quick": "12x5 origins x 10 cell sizes x all dimensions up to 4x5 x 4 ways (plain, compact, corner file, given header): every cell at 7x7 points inside and its centre, 8 distances beyond every border and corner; rows and columns of up to 4097 cells", "thorough": "12x12 origins, up to 6x7"},
    assumptions=["points exactly on the border between two cells are not judged", "origins up to 1e8 cell sizes away from zero"])
SPECS["R06"] = dict(level="model_checking", harness=["r06.cpp"], sources=RAS, parts=4,
    bounds={"quick": "every no-data pattern of mask and source for 9 pairs of shapes up to 3x2 / 2x3 (samples of 3x3 pairs), 9 relative positions (aligned, shifted by fractions, disjoint), 3 ratios of cell sizes, both extents, compact or not, 2 defaults, 6 type pairs, later SetCalcPositions/SetUseMaskExt; 4x4x4 no-data/default values; two rasters through one mask; re-reading through another mask; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000", "thorough": "every pair of 3x3 patterns"},
    assumptions=["source cells are found at the centre of the mask's cells, which do not lie on borders of source cells", "selected cells beyond the source are no-data, those the source covers without data take the default", "with the smallest extent, cells are kept within the bounding box of those the source holds data for", "the mask outlives the rasters read through it"])
SPECS["R07"] = dict(level="model_checking", harness=["r07.cpp"], sources=RAS, parts=3,
    bounds={"quick": "every placement of no-data in 2 layers of 4 shapes up to 2x3 and in 3 layers of 2x2, 2..12 layers; through every 2x2 mask in 4x2 relative positions (half of the layer patterns) and every 2x3 mask over 3 layers of 3x2; layers of 6x6 dimensions at 5x5 relative positions and 3 cell sizes; each layer of 1..4 unreadable in 6 ways; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000", "thorough": "all patterns in every case"},
    assumptions=["layers are matched by location, at the centres of the cells of the first", "where the first layer has no data, the others may be dropped", "the default value equals no-data"])
SPECS["R08"] = dict(level="model_checking", harness=["r08.cpp"], sources=RAS,
    bounds={"quick": "every sequence of <= 3 of 20 operations (cell writes, no-data replacement, reclassification, positions, statistics, defaults, output type, copying) on 4 grids of 2x3 x 6 ways of storing them (int; 2 layers of double: 4 ways), <= 2 operations for float, byte and 3 layers of short; written to both formats after 2; every triple of 11 fractions reclassified; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000 (small ones also with 12 layers)", "thorough": "sequences of 4"},
    assumptions=["cells without data are not reclassified (no key for the no-data value is given)", "writes to cells that are not stored are refused, as documented", "a raster without any valid cell is not compacted"])
SPECS["R09"] = dict(level="model_checking", harness=["r09.cpp"], sources=RAS,
    bounds={"quick": "every grid over no-data and 4 values on 6 shapes up to 2x2 and 1x4 (4 element types, 1..3 layers) x 7 ways of storing it x every statistic asked first x every way of asking; every history of <= 3 of 15 operations (writes, no-data replacement, reclassification, refresh, queries, release, copies, other files) on 3 grids x 5 ways of storing; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000 (small ones also with 12 layers)", "thorough": "2x3 grids, histories of 4"},
    assumptions=["between a change and the next refresh, statistics calculated before are not judged", "without any valid cell only the count is judged"])
SPECS["R10"] = dict(level="model_checking", harness=["r10.cpp"], sources=RAS,
    bounds={"quick": "every sequence of <= 3 (in part 4) of up to 42 creating, copying, masking, changing and releasing steps over 3 objects starting from 5 kinds of rasters, released in both orders; every sequence of <= 4 copies, data settings and releases of subsets; 2x3 sources and masks (half of all pairs of patterns): own and inherited subsets after position calculation and extent changes; contents of all objects, AddressSanitizer, balance of memory blocks", "thorough": "sequences of 4 (5), all pairs of patterns"},
    assumptions=["a raster that borrows the positions of its mask goes before the mask, and the positions of a lending mask are not recalculated", "subsets sharing positions with their source go before it", "inherited subsets may drop or keep their cells without data"])
SPECS["R11"] = dict(level="model_checking", harness=["r11.cpp"], sources=RAS,
    bounds={"quick": "every zone pattern of 9 shapes up to 2x3 (3 zones and no-data; 3x3: 2 zones) in 4 element types and 2 layers x 9 ways of storing the raster x 5 groupings, then rebuilt in another grouping; every history of <= 3 of 14 operations (build, rebuild, release, writes, copy, positions) on 4 grids x 9 ways of storing; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000 (small ones also with 12 layers); zones of ids of either sign and any size", "thorough": "1x6 grids, all groupings everywhere, histories of 4"},
    assumptions=["building while subsets exist keeps them, as documented", "zones of real-valued rasters are the integer parts of their values"])
SPECS["R12"] = dict(level="model_checking", harness=["r12.cpp"], sources=RAS,
    bounds={"quick": "every zone pattern of 2x2, 1x3, 3x1 and 1x1 (2 or 3 zones and no-data; int, float, byte, 2 layers of double) x 8 ways of coming by the subsets (own, compact, copied, inherited from a mask in both extents, values over a mask) x 6 things to write (original, own data, three reclassifications, nothing) x one by one or combined x every choice of unusable subsets x default value set, given or neither x ASC or GeoTIFF; split, written, read back, assigned and combined for every pattern of 5 shapes up to 3x3, 1 and 2 layers, both formats; every history of <= 3 assignments (one-dimensional, 1, 2 or 3 layers, 4 kinds of refused data) to two subsets of 7 kinds of raster, among them subsets inherited with data of other layer counts, then written in every way; 8 placements of no-data on 6 large shapes up to 129x130 and 2x35000 (small ones also with 12 layers); zones of ids of either sign and any size", "thorough": "also 2x3 and 3x2 patterns, 3 zones, both formats everywhere"},
    assumptions=["subsets inherited from a mask may drop or keep their cells without data; combinations with kept ones are not judged", "combining subsets of which only some hold data under a reclassification is not judged", "files of a refused output are not judged"])
SPECS["R13"] = dict(level="model_checking", harness=["r13.cpp"], sources=RAS,
    bounds={"quick": "4 shapes up to 24x10 (int, byte, 2 layers of float/double) x whole, compact, combined or single subsets x ASC or GeoTIFF x new file, over an existing one, into a missing directory, below a file, onto a directory: every single operation on the output (open, write, flush, close with loss of data, remove, mkdir) failing once, and once with all later ones; space running out after every number of bytes up to the file's size; written again afterwards", "thorough": "also every pair of failures, a 130x40 raster (space: every byte)"},
    assumptions=["faults are injected at the C library's file operations", "after a refused output, whatever the files hold is not judged", "GDAL's own files beside the raster are not judged"])
MONGO_FLAGS = ["-DUSE_MONGODB", "-I/usr/include/libmongoc-1.0", "-I/usr/include/libbson-1.0"]
MONGO_LIBS = ["-lbson-1.0", "-Wl,--wrap=usleep"]
SPECS["C01"] = dict(level="model_checking", harness=["c01.cpp"], sources=SRC + ["src/db_mongoc.cpp"], asan=False, flags=["-fsanitize=thread", "-O0"] + MONGO_FLAGS, libs=MONGO_LIBS + ["-lgdal"], plain=["mc/sched.cpp"], openmp_link=False,
    bounds={"quick": "every schedule (dynamic partial order reduction with sleep sets over all accesses to memory outside the thread's own stack, atomics, critical sections, barriers) of every parallel region with 2 and 3 threads: array initialisation (5 ways), sums and statistics of 1..6 elements (4 element types, 1..3 layers, every placement of no-data), and 16 raster operations (reading 1..3 layers with and without mask, positions, no-data replacement, reclassification, statistics, copies, subsets, export to 10 data types, storing in and reading from the document store in 11 data types with and without no-data cells) on every no-data pattern of 2x2 (2x3) grids; first 6 small programs whose sets of outcomes are known are explored to validate the explorer", "thorough": "2..4 threads, up to 8 elements, grids up to 3x3"},
    assumptions=["sequentially consistent interleavings of the accesses in the source (compiled without optimisation)", "operations with more than 300 (thorough: 20000) schedules in all are explored one parallel region at a time, regions with more than 20 times as many under at most 2 preemptions", "real sums are compared to 12 digits"])
SPECS["X01"] = dict(level="model_checking", harness=["x01.cpp"], sources=SRC, libs=["-Wl,--wrap=exit", "-lgdal"],
    bounds={"quick": "half of all pairs of a 2x2 raster and a 2x2 mask over 2 values/zones and no-data, all pairs of 1x3 ones, shifted pairs, with mode, reclassification, default, no-data, format and argument style varied over them; every sixth combination of 6 mode spellings x no mask/2 masks x 5 argument styles x 6 data types x 3 defaults x 3 no-data x 4 reclassifications for 1 and 2 layers; combining by every 2x2 and 1x3 mask x every choice of missing parts x every pattern of holes x order x cut parts; decompose then combine; configuration files of 1 and 2 items with every number of fields; every list of <= 3 words out of 22; every truncation of 25 argument lists and of their configuration files; 13 faults x modes x styles x formats",
            "thorough": "all pairs, all options, 2x3 masks, 3 items, lists of 4 words"},
    assumptions=["the tool's main function runs in the checking process (exit() is intercepted)", "without -out the suffix may be the input's or tif; combined rasters may be named with or without 0_", "decomposing: cells of a zone without data may be left out; with a reclassification they hold no-data or the default value", "layers after the first need not be filled by the default value", "illegal numbers fall back as the warnings say; unknown tags are ignored", "MongoDB options are not judged (no server)"])
MONGO = ["src/basic.cpp", "src/utils_math.cpp", "src/utils_string.cpp", "src/utils_time.cpp", "src/utils_filesystem.cpp", "src/db_mongoc.cpp"]
SPECS["M01"] = dict(level="model_checking", harness=["m01.cpp"], sources=MONGO, flags=MONGO_FLAGS, libs=MONGO_LIBS,
    bounds={"quick": "every history of <= 2 of 55 operations (store 3 names x 3 contents x 4 metadata, remove 4 names x 4 filters, files of other clients) and of 3 of 37 operations x 2 ways of giving the bucket, then every name read, described, found under 6 filters and listed; every set of 6 collections and 3 buckets; contents of 15 lengths up to 3 MB around the chunk size", "thorough": "histories of 3 of 55 and 4 of 37 operations"},
    assumptions=["the driver and the server are a stand-in (harness/mongo_stub.hpp) that keeps GridFS files as a list, matches queries by equality and hands out real BSON", "of several stored versions of a name that match, any may be read", "files stored without metadata may be described by nothing"])
SPECS["M02"] = dict(level="model_checking", harness=["m02.cpp"], sources=SRC + ["src/db_mongoc.cpp"], flags=MONGO_FLAGS, libs=MONGO_LIBS + ["-lgdal"],
    bounds={"quick": "11 client and 6 file operations on 4 names x filter x 2 ways of giving the bucket: every choice of <= 3 failing driver calls, each failing, transferring half, or failing from then on; repeated without failures; balance of handles and memory blocks", "thorough": "4 failing calls"},
    assumptions=["the driver is a stand-in (harness/mongo_stub.hpp) that fails as the driver's documentation says", "a listing that failed may only return nothing"])
SPECS["M04"] = dict(level="model_checking", harness=["m04.cpp"], sources=MONGO, flags=MONGO_FLAGS, libs=MONGO_LIBS,
    bounds={"quick": "every text of <= 5 of 11 characters, 3700 numbers around all powers of 2 and 10 in 8 forms, 45 special texts: written, read as text and as 8 numeric types, used as filter; maps of <= 3 options x 3 prefixes; 110 values of 10 field types through every reader; 4000 instants from 1902 to 2200 as time and as text", "thorough": "texts of <= 6 characters, 40000 instants"},
    assumptions=["documents are real BSON (libbson)", "texts which strtod takes for numbers in other forms (hexadecimal, inf, leading blanks) may be kept as text or as that number", "fractions read as integers may be rounded either way"])
SPECS["M03"] = dict(level="model_checking", harness=["m03.cpp"], sources=SRC + ["src/db_mongoc.cpp"], flags=MONGO_FLAGS, libs=MONGO_LIBS + ["-lgdal"],
    bounds={"quick": "every no-data pattern of 3..4 shapes up to 2x2 and 3x1 (4 element types, 1..3 layers) x whole, compact, copied or mask-bound rasters x with or without no-data cells x over an older version or not x options, read back 3 ways, compact or not, through masks that fit and that do not; every pair of 6..15 values (limits of the types) x 3..5 no-data values x 12 requested types; every pair of mask and source patterns of 3 pairs of shapes up to 2x3 in 8 relative positions x both extents x compact x default; every zone pattern of 2x2 (1x3) x 4 things to write x one by one or combined x unusable and bare subsets, read as rasters and as data of subsets; documents with any 2 of 7 fields replaced by 9..12 values or missing; every choice of <= 2 (writing) or <= 3 (reading) failing driver calls; repeated reading into one object; balance of memory blocks; 6 large shapes up to 129x130 and 2x35000 in 8 placements of no-data",
            "thorough": "shapes up to 3x2 and 2x3, one more failing call"},
    assumptions=["the driver is a stand-in (harness/mongo_stub.hpp)", "files without no-data cells are read through a mask of the same shape, extent and number of cells", "a value which the requested type cannot hold, or which would become no-data, makes the storing refused; fractions may be rounded either way", "a raster read through a mask may take the mask's spatial reference", "a compact raster without any cell may be refused"])
