#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, hook=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, hook=hook, na=na))

SAMPLED = "Sampled, seed-determined executions of the real code; no exhaustiveness. Trusts the generator's model of the file format and Go's reflect package. "

prop("H01", "Intel HEX files are read to exactly their memory image",
     "Reading a well-formed Intel HEX file (record types 00, 01, 03, 04 and 05; any record lengths, record order, hex case, blank lines and either kind of line end) succeeds and delivers exactly the bytes the file defines, each at the 32-bit linear address made of the extended linear address in force (initially 0) and the record's offset, with carry over 64K borders, and nothing else. This holds for every number of processors and every schedule of the internal workers.",
     ["inputs", "schedules", "configurations"], "all well-formed files x all splits of the records among workers x all schedules of the workers",
     "One test parses one file on the machine's processor count; which record falls to which worker, where bases change relative to worker borders, and how workers interleave are never varied.",
     ["ihex32/hex.go", "ihex32/record.go"],
     [["records are parsed in slices by workers and re-assembled in order", "ihex32/hex.go parseHex"], ["bases are handed on to following data records by concurrent workers", "ihex32/record.go addOffsets"], ["addresses are computed from base, offset and position", "ihex32/record.go calcDataEntries"]],
     "runtime monitoring: image oracle over generated files, varied worker counts and injected delays",
     SAMPLED, observe=["ihex32.ParseFromFile"])
prop("H02", "Motorola S-record files are read to exactly their memory image",
     "Reading a well-formed S-record file (S1, S2 and S3 data records, also mixed, with or without header, count and end records; any record lengths, record order, hex case, blank lines and either kind of line end) succeeds and delivers exactly the bytes the data records define, each at its own address, and nothing else. This holds for every number of processors and every schedule of the internal workers.",
     ["inputs", "schedules", "configurations"], "all well-formed files x all splits of the records among workers x all schedules",
     "One test parses one S3 file on the machine's processor count.",
     ["srec19/hex.go", "srec19/record.go"],
     [["records are parsed in slices by workers and re-assembled in order", "srec19/hex.go parseHex"], ["address length by record type", "srec19/record.go parseRecord"], ["data entries", "srec19/record.go calcDataEntries"]],
     "runtime monitoring: image oracle over generated files, varied worker counts and injected delays",
     SAMPLED, observe=["srec19.ParseFromFile"])
prop("H03", "A corrupt or malformed record makes reading a hex file fail",
     "If any single record of an Intel HEX or S-record file is corrupt - a changed hex digit (other than an S-record's type digit), a wrong checksum, a non-hex character, a missing start mark, too few or too many characters for its byte count, an unsupported record type, or an extended-address record that does not hold two bytes - reading the file returns an error. No such record is skipped silently, wherever in the file it stands and whatever the number of processors.",
     ["inputs", "fault_sequences", "configurations"], "all single-record corruptions x all positions x all worker counts",
     "The tests contain no corrupt file at all.",
     ["ihex32/hex.go", "ihex32/record.go", "srec19/hex.go", "srec19/record.go"],
     [["checksum validation by concurrent workers", "validateChecksumsRoutine"], ["length and start mark", "parseRecord"], ["error channels", "parseHex"]],
     "runtime monitoring under fault injection: every injected corruption must be reported",
     SAMPLED, observe=["ihex32.ParseFromFile", "srec19.ParseFromFile"])
prop("H04", "An address that is defined twice makes reading a hex file fail",
     "If two records of an Intel HEX or S-record file define a byte at the same address, with equal or different values, reading the file returns an error, however far apart the records are and whatever the number of processors. A file that defines every address at most once is not rejected for this reason.",
     ["inputs", "configurations"], "all pairs of overlapping records x positions x worker counts",
     "No test has overlapping records.",
     ["ihex32/hex.go", "srec19/hex.go"],
     [["collision check while the image is assembled", "parseHex"]],
     "runtime monitoring under fault injection: every injected collision must be reported",
     SAMPLED, observe=["ihex32.ParseFromFile", "srec19.ParseFromFile"])
prop("A01", "Every object of an A2L module is delivered exactly once",
     "Reading a valid A2L file with one module succeeds and delivers every object of the module (all kinds of module-level blocks) exactly once, in the collection of its kind, under its own name and with its own content; nothing is lost, duplicated, mixed up or invented. This holds for every number and order of objects (with names unique within their kind), every number of processors and every schedule of the internal workers.",
     ["inputs", "schedules", "configurations"], "all modules x all splits of the tokens among workers x all schedules",
     "Tests parse small snippets with a single parser call, or one file at the machine's processor count; the borders between workers always fall on the same tokens.",
     ["a2l/module.go", "a2l/token_generator.go", "a2l/project.go"],
     [["the tokens of a module are split among workers at object borders", "a2l/module.go parseModuleMultithreaded"], ["objects are collected over channels", "a2l/module.go"], ["tokens are built by workers and re-assembled in order", "a2l/token_generator.go"]],
     "runtime monitoring: conservation oracle over generated modules, varied worker counts, injected delays",
     SAMPLED, observe=["a2l.ParseFromFile"])
prop("A02", "Every attribute of an A2L object is delivered as written",
     "Every positional value, optional part, list entry and nested block of every object in a valid A2L file is delivered with the value written in the file (texts including their quotation marks, with single blanks for any white space between their words; numbers, in decimal notation, by value; enumerations by name) and its presence flag set, in the part of the object it belongs to and in file order; optional parts the file does not contain are delivered as absent. This covers every kind of block and keyword the reader supports, every combination of optional parts in any order, border values of numbers, and texts containing comment marks, keywords, slashes, doubled quotation marks and non-ASCII characters.",
     ["inputs"], "all valid objects: all combinations, orders and values of their parts",
     "Each test parses one hand-written snippet of one construct; combinations, orders, absent parts and unusual values are not sampled, and many constructs have no test.",
     ["a2l/"],
     [["one hand-written parser per construct", "a2l/*.go"], ["enumerations", "a2l/enums.go"], ["keyword table", "a2l/tokens.go"]],
     "runtime monitoring: field-by-field oracle over schema-generated objects",
     SAMPLED + "Fields are observed by name; a renamed field is reported as not observable, not as a violation.", observe=["a2l.ParseFromFile"])
prop("A03", "Layout, comments and line ends of an A2L file do not matter",
     "Two A2L files that contain the same tokens deliver the same result, whatever white space (between, not within texts), line breaks (LF, CRLF or both, none, between the two words of a block keyword, inside texts where they count as a blank), indentation, byte order mark and line or block comments (separated from tokens by blanks or line breaks; also between the two words of a block keyword, in front of the first and behind the last token, spanning lines and containing quotation marks, comment marks or keywords) stand between them. This holds for every number of processors.",
     ["inputs", "configurations"], "all layouts of all token sequences x all splits of the lines among workers",
     "Tests use one layout; where multi-line comments, texts and keywords fall relative to worker borders is never varied.",
     ["a2l/token_generator.go", "a2l/a2l.go"],
     [["lines are tokenised in slices by workers", "a2l/token_generator.go buildTokenGeneratorFromString"], ["fallback to sequential tokenising at incomplete tokens", "a2l/token_generator.go"], ["comment and text handling", "a2l/token_generator.go buildNextValidToken"]],
     "runtime monitoring: metamorphic layouts checked against one model",
     SAMPLED, observe=["a2l.ParseFromFile"])
prop("A04", "A2L results do not depend on processors, schedule or repetition",
     "Reading the same A2L file always gives the same outcome - the same complete result, or an error every time - whatever the number of processors, the timing of the internal workers and how often it was read before. This holds for valid files, for files that define objects more than once, and for malformed files.",
     ["schedules", "configurations", "inputs"], "all files x all worker counts x all schedules",
     "Tests read a file once, with one processor count and whatever schedule the machine happens to produce.",
     ["a2l/token_generator.go", "a2l/module.go", "a2l/a2l.go"],
     [["splitting of lines and tokens by processor count", "a2l/token_generator.go, a2l/module.go"], ["collection over channels", "a2l/module.go"]],
     "runtime monitoring: outcome fingerprints compared across worker counts, schedules and repetitions with injected delays",
     SAMPLED, observe=["a2l.ParseFromFile"])
prop("A05", "A truncated or malformed A2L file is reported as an error",
     "Reading an A2L file returns an error if the file ends before the end of its project, has no project, contains an unterminated text or block comment or an include directive, lacks the end of a block or closes it as another block, has a number that is no number or out of range, an enumeration value that does not exist, or a block or file-version keyword where a value is expected (except inside free-form blocks and as module name or description). Damage is reported wherever it stands and whatever the number of processors.",
     ["inputs", "fault_sequences", "configurations"], "all such damages at all positions of all files x all worker counts",
     "Tests check a few missing values of single constructs; errors inside workers and their way to the caller are not tested.",
     ["a2l/"],
     [["error returns of the construct parsers", "a2l/*.go"], ["errors of the workers are collected", "a2l/module.go"], ["incomplete tokens are detected", "a2l/token_generator.go"]],
     "runtime monitoring under fault injection: every injected damage must be reported",
     SAMPLED, observe=["a2l.ParseFromFile"])
prop("A06", "A project's modules are delivered separately and in file order",
     "Reading an A2L file with any number of modules delivers one module per module block, in file order, each with exactly the objects, attributes and name of its own block, even if modules contain objects of the same names. Header and version information of the file are delivered as written.",
     ["inputs", "configurations"], "all sequences of modules x all worker counts",
     "No test has more than one module.",
     ["a2l/project.go", "a2l/module.go", "a2l/token_generator.go"],
     [["modules are counted to choose the parser", "a2l/token_generator.go"], ["module list", "a2l/project.go"]],
     "runtime monitoring: field-by-field oracle over generated multi-module files",
     SAMPLED, observe=["a2l.ParseFromFile"])
prop("R01", "No input makes the readers crash, hang or leak workers",
     "For every file content - random bytes, binary data, empty files, damaged or truncated valid files, random token sequences - and for paths that do not exist or cannot be read, the A2L, Intel HEX and S-record readers and the combined reader return a result or an error: they do not panic, deadlock or run forever, and all their internal workers have ended shortly afterwards. A path that does not exist or cannot be read always gives an error.",
     ["inputs", "configurations", "schedules"], "all byte sequences as file contents x all worker counts",
     "The fuzz targets only replay their seed corpus in the test run and look at one internal function.",
     ["a2l/", "ihex32/", "srec19/", "calib_data.go"],
     [["bounds checks in the tokenisers and record parsers", "a2l/token_generator.go, ihex32/record.go, srec19/record.go"], ["buffered channels and wait groups", "a2l/module.go, ihex32/hex.go, srec19/hex.go"]],
     "runtime monitoring: crash, hang and goroutine-leak monitors under mutational and structure-aware fuzzing",
     SAMPLED, observe=["a2l.ParseFromFile", "ihex32.ParseFromFile", "srec19.ParseFromFile", "ReadCalibration"])
prop("C01", "Reading is free of data races, and concurrent calls do not interact",
     "Reading A2L, Intel HEX and S-record files involves no data race, neither among the internal workers nor between concurrent calls from several goroutines (of the same or different individual readers, or of the combined reader). Every concurrent call returns exactly what it returns alone.",
     ["schedules", "configurations", "inputs"], "all schedules of the workers of one or several concurrent calls x all worker counts",
     "Tests run without the race detector, one call at a time.",
     ["a2l/a2l.go", "a2l/token_generator.go", "a2l/module.go", "ihex32/hex.go", "ihex32/record.go", "srec19/hex.go", "calib_data.go"],
     [["mutex around the shared tokens and settings", "a2l/a2l.go"], ["record locks while bases are applied", "ihex32/record.go"], ["wait groups and channels", "a2l/module.go, ihex32/hex.go"], ["mutex around the log set-up", "calib_data.go"]],
     "Go race detector plus result oracle under concurrent workloads",
     "Data races are reported for executed accesses only (happens-before analysis of sampled schedules); results are compared with those of single calls.", observe=["a2l.ParseFromFile", "ihex32.ParseFromFile", "srec19.ParseFromFile", "ReadCalibration"])
prop("C02", "Calls are independent of history, and results stay as delivered",
     "What a call of a reader returns depends only on the file it reads, not on earlier calls, successful or failed, with the same or other files and formats. A result, once delivered, is never changed by later calls, and what a caller does to a result does not show in later ones. Repeated calls accumulate neither workers nor open input files.",
     ["histories", "inputs"], "all sequences of calls on all files",
     "Tests make one call per process and function.",
     ["a2l/a2l.go", "a2l/token_generator.go", "ihex32/hex.go", "srec19/hex.go", "calib_data.go"],
     [["package-level state is reset per call", "a2l/token_generator.go"], ["fresh structures per call", "a2l/*.go"]],
     "runtime monitoring: history oracle and result fingerprints over random call sequences",
     SAMPLED, observe=["a2l.ParseFromFile", "ihex32.ParseFromFile", "srec19.ParseFromFile", "ReadCalibration"])
prop("I01", "The combined reader returns both parts complete, or an error",
     "Reading an A2L file together with a hex file delivers exactly what the A2L reader and the reader chosen by the hex file's extension (.hex: Intel HEX, .s19: S-record, in any case, whatever the directories are called) deliver for these files, with the first module selected. If either file cannot be read or the extension is another one, an error and no data are returned.",
     ["inputs", "schedules", "fault_sequences"], "all pairs of valid and invalid files x paths x schedules of the two readers",
     "One test reads one pair of files.",
     ["calib_data.go"],
     [["two readers run concurrently and report over channels", "calib_data.go ReadCalibration, readA2L, readHex"]],
     "runtime monitoring: composition oracle over pairs of generated files with faults in either",
     SAMPLED, observe=["ReadCalibration"])
prop("I02", "Lookup by name finds exactly the matching objects of the selected module",
     "Looking up a name returns exactly the objects of that name among the axis points, characteristics, computation methods, computation tables (numeric, verbal, range), functions, groups, measurements, record layouts, units and system constants of the selected module - each once, with its content - and nothing if there are none or the selected module does not exist. Other modules' objects and other names are never returned.",
     ["inputs"], "all modules x all names x all module selections",
     "The tests look up one name in one collection.",
     ["record_manager.go"],
     [["one lookup per collection", "record_manager.go GetObjectByIdent"]],
     "runtime monitoring: lookup oracle over generated projects",
     SAMPLED, observe=["CalibrationData.GetObjectByIdent"])
prop("L01", "Positions of a record layout map to the right fields",
     "The position map of a record layout contains for every positioned field present in the layout exactly one entry, from its position to the field's name, and asking for the data type of a field named in the map returns the data type written in the layout, or an error if the layout does not contain the field. If two fields have the same position an error is returned instead of the map, otherwise none.",
     ["inputs"], "all record layouts: all subsets of fields, positions and data types",
     "No test covers it.",
     ["a2l/record_layout.go"],
     [["one entry per field", "a2l/record_layout.go GetRecordLayoutRelativePositions"], ["data type by field name", "a2l/record_layout.go GetDatatypeByFieldName"]],
     "runtime monitoring: map oracle over generated record layouts",
     SAMPLED, observe=["RecordLayout.GetRecordLayoutRelativePositions", "RecordLayout.GetDatatypeByFieldName"])
prop("V01", "Raw bytes are decoded to the value their data type and byte order define",
     "A byte sequence read from the hex image is decoded to exactly the number its data type (8- to 64-bit signed and unsigned integers, 16-, 32- and 64-bit IEEE floats) and the module's byte order (big or little endian under either name) define; a sequence that is too short and the mixed byte orders are rejected. Fetching a range of the image returns exactly its bytes in address order, or an error if any of them is missing; addresses written in hexadecimal are understood independently of the byte order, and those that are no 32-bit hexadecimal number are rejected. A string of hex digit pairs is decoded to exactly its bytes, any other string is rejected. Every data type reports its own name, length and Go type, every byte order its own name.",
     ["inputs"], "all byte sequences x data types x byte orders; all ranges of all images",
     "No test covers it.",
     ["record_manager.go", "calib_data.go", "a2l/enums.go"],
     [["decoding by data type", "record_manager.go convertByteSliceToDatatype"], ["byte fetch", "calib_data.go getBytes"], ["addresses", "record_manager.go convertStringToUint32Address"], ["type sizes", "a2l/enums.go"]],
     "runtime monitoring: reference decoder as oracle over random bytes",
     SAMPLED + "Attached to internal functions by name.", observe=["convertByteSliceToDatatype", "getBytes", "convertStringToUint32Address"])
prop("V02", "Addresses are aligned by layout, then module, then default",
     "The next aligned address for a data type is the smallest address not below the given one that is a multiple of the alignment the record layout defines for that data type; if the layout defines none, of the alignment of the module's common settings; if these define none, of the default (1, 2, 4 or 8 bytes by the size of the data type). Alignments of other data types have no influence.",
     ["inputs"], "all addresses x data types x combinations of alignments",
     "No test covers it.",
     ["calib_data.go"],
     [["one branch per data type", "calib_data.go getNextAlignedAddress"]],
     "runtime monitoring: arithmetic oracle over random layouts",
     SAMPLED + "Attached to an internal function by name; alignments of 0 are not generated.", observe=["getNextAlignedAddress"])
prop("V03", "Conversions give the physical value their method defines",
     "Converting a raw value gives the value the computation method defines: the value itself (identical), a*x+b (linear), a value whose inverse rational function is the raw value (rational), the table entry of the raw value or else the default value (tables without interpolation, verbal tables, and verbal range tables, whose ranges include their lower and exclude their upper limit unless both are equal). Methods that are not supported, missing coefficients, missing tables and values with neither entry nor default are reported as an error and never give a result.",
     ["inputs"], "all computation methods x all raw values",
     "No test covers it.",
     ["compu_methods.go"],
     [["one function per kind of method", "compu_methods.go convDecToPhy"]],
     "runtime monitoring: arithmetic and table oracles over random methods",
     SAMPLED + "Attached to internal functions by name.", observe=["convDecToPhy", "calcTabVerb", "calcTabVerbRange"])
prop("V04", "Record layouts and system constants come from the selected module",
     "The record layout of a characteristic, a system constant and the value of a system constant are those of the given name in the selected module, with their content, or an error if the module has none of that name (or the module does not exist, the characteristic names no layout, or the constant has no value). Objects of the same name in other modules have no influence.",
     ["inputs"], "all projects x all names x all module selections",
     "No test covers it.",
     ["record_manager.go", "calib_data.go"],
     [["system constants", "record_manager.go getSystemConstant, getSystemConstantValue"], ["layout by deposit", "calib_data.go getRecordLayout"]],
     "runtime monitoring: lookup oracle over generated modules",
     SAMPLED + "Attached to internal functions by name.", observe=["getSystemConstant", "getSystemConstantValue", "getRecordLayout"])
prop("V05", "Fields of a record are read at their aligned place and advance the cursor",
     "Reading a field of a record (numbers of axis points and rescale pairs, offset, distance and shift operands, identification, single function values, and the axis points - as many as the layout fixes or else as were read before - in address order) takes the bytes at the next aligned address at or after the cursor, decodes them by the field's data type, and leaves the cursor directly behind the bytes taken; reserved bytes are skipped by their size without alignment. If bytes are not in the image, the field has no data type, a number of several bytes is in a mixed byte order or an axis has no points, an error is returned.",
     ["inputs"], "all record layouts x images x cursor positions",
     "No test covers it.",
     ["distOp.go", "shiftOp.go", "offsetOp.go", "no_axis_pts.go", "no_rescale_x.go", "identification.go", "reserved.go", "axis_pts.go", "calib_data.go"],
     [["one function per field", "distOp.go and others"], ["aligned fetch", "calib_data.go getValue"]],
     "runtime monitoring: cursor and value oracle over random layouts and images",
     SAMPLED + "Attached to internal functions by name.", observe=["getDistOpX ... getAxisPoints5"])

prop("V06", "The fields of a record are read in the order of their positions",
     "Reading the record of a characteristic starts at the characteristic's address and reads the fields its record layout contains (axis points, numbers of axis points and rescale pairs, offset, distance and shift operands, identification, reserved bytes) in ascending order of their positions - whatever the positions are and wherever the fields stand in the layout -, each at its next aligned place behind the one before, and delivers every value under its own field; fields the layout does not contain stay empty. The record layout is the one of that name in the selected module. Reading the same record again gives the same values. If there is no such layout or module, two fields have the same position or the address is no address, nothing is read; if a field cannot be read, it and the fields behind it stay empty.",
     ["inputs", "histories"], "all record layouts x images x modules",
     "No test covers it; the order of a Go map differs from run to run.",
     ["calib_data.go", "characteristic_values.go", "a2l/record_layout.go"],
     [["walk over the fields", "calib_data.go getValuesFromHex"], ["position map", "a2l/record_layout.go GetRecordLayoutRelativePositions"]],
     "runtime monitoring: reference model of whole records over random layouts and images",
     SAMPLED + "Attached to internal functions by name. Function values of more than one element, rescale axes and address fields are not implemented by the reader and not generated.", observe=["getValuesFromHex"])

prop("V07", "The map form of a parsed file holds exactly its public values",
     "Turning a parsed A2L file into its map form succeeds (if all its numbers are finite) and gives nested maps and lists that contain every exported value of the result, for all modules and at every depth, under its field name, key or list index and with its value (numbers as floating-point numbers), and nothing else. The parsed file is not changed by it, and it can be repeated.",
     ["inputs"], "all A2L files",
     "The test only looks at the error.",
     ["a2l/a2l.go"],
     [["conversion to maps", "a2l/a2l.go toHashMap"]],
     "runtime monitoring: reflective walk over the parsed structure against the produced map",
     SAMPLED + "Attached to internal functions by name.", observe=["toHashMap"])

CLAIMED = open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()
props = [p for p in P if p["id"] in CLAIMED or p["na"]]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none needed: in-package accessors are added at build time with go build -overlay (tags veriftune, verif<id>), not in /repo", "enable": "build.sh", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": p["technique"], "level": "exploration", "level_note": p["note"].strip()} for p in props if p["id"] in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props if p["id"] not in CLAIMED]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(props), "properties,", len(m["checks"]), "checks")
