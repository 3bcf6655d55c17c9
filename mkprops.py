"""Writes properties.jsonl (kept as code so that the file stays valid JSON lines)."""
import json, os
M = "src/hdf5storage/Marshallers.py"; I = "src/hdf5storage/__init__.py"; U = "src/hdf5storage/utilities.py"
P = "src/hdf5storage/pathesc.py"; G = "src/hdf5storage/plugins.py"
props = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Anything written with Python metadata reads back as the same Python object",
  "For every value of a supported Python or NumPy type, arbitrarily nested, and for every combination of storage options with store_python_metadata on (MATLAB compatible or not, compressed or not, any single storage transformation switched), writing it and reading it back with the same options gives an object of the same type (and, for arrays and NumPy scalars, the same dtype up to byte order, shape and array class) whose value is equal all the way down. Of structured arrays that are stored as Groups (those with object or Unicode fields, or fields whose names HDF5 compounds can't have, or with structured_numpy_ndarray_as_struct on) the names, order, shape and element values of the fields are kept, not their dtypes, and of empty ones only the names and shape.",
  ["inputs", "configurations"],
  "All values of the supported types listed in the storage-format documentation (str, bytes, bytearray, None, Ellipsis, NotImplemented, bool, int of any size, float, complex, slice, range, Fraction, datetime types, dtype, list, tuple, set, frozenset, deque, dict, Counter, OrderedDict, ChainMap, NumPy scalars, n-d arrays of any layout, matrix, chararray, recarray, structured and object arrays), nested; all Options combinations with Python metadata.",
  "The tests write random samples of one type at a time at fixed small shapes under four option presets, with ASCII-leaning strings and a lenient comparison; nesting, empty/0-d shapes, byte orders, memory layouts, unusual characters and mixed option settings are products no finite list of examples covers.",
  [I, M, U],
  [("Python.* attributes record type, dtype, shape and container", M + " NumpyScalarArrayMarshaller.write_metadata"), ("inverse conversions on read", M + " *.read / read_approximate"), ("string, complex and dtype conversions", U)],
  ["hdf5storage.write / read", "hdf5storage.File.write / read"])

p("C02", "The last write at a path wins, whatever the path held before",
  "After any history of writes of any supported values under any options to the same path (including deletes, objects put there by other HDF5 software, and reopening the file between writes), reading the path gives exactly what would be read had the last write been the only one made into a fresh file with the same options. Nothing about an earlier object (value, shape, type, attributes, fields, filters) shows through in the data or, apart from what delete_unused_variables set to off deliberately keeps, in the file.",
  ["histories", "configurations"],
  "All sequences of write/delete/reopen on one path (and on its ancestors and descendants), with values of all supported types and options changing from write to write.",
  "Existing tests write each value to a fresh path of a fresh file, so no test ever overwrites an object of a different type, shape or option set; the space is pairs and longer chains of values times options.",
  [I, M, U],
  [("dataset reuse or re-creation on write", U + " write_data, write_object_array; " + M + " NumpyScalarArrayMarshaller.write"), ("stale attribute removal", U + " set_attributes_all, del_attribute")],
  ["hdf5storage.File.write / read", "raw HDF5 attributes and members of the written object"])

p("C03", "Writing, deleting or reading one path leaves the rest of the file untouched",
  "A write, delete or read at one path changes no other object in the file that does not lie under (or contain) that path: its data, attributes, type, shape and filters as seen by any HDF5 reader, and whatever it reads back as, stay the same, including objects held by reference (unless the overwritten or deleted object itself holds them) and objects created by other software. A write that raises because the data type is unsupported also leaves every other path as it was, and missing parent groups are created as plain groups without touching the attributes and other members of existing ones.",
  ["histories", "inputs"],
  "All sequences of operations on files holding any mixture of objects (stored by this library at any paths and nesting, or by raw h5py), any values and options.",
  "Tests write one object, or two objects of the same kind, into one file; interference needs combinations of neighbours, shared reference groups and failing operations.",
  [I, M, U],
  [("path split and parent creation", I + " File.writes / File.__delitem__"), ("fresh random names for referenced objects", U + " next_unused_name_in_group, write_object_array")],
  ["raw HDF5 content of the file before and after", "File.read of all other paths"])

p("C04", "MATLAB-compatible files obey the MAT v7.3 layout for every value",
  "Whatever supported value is written with MATLAB compatibility on, the file starts with a valid 512-byte MAT v7.3 user block and every object in it is one MATLAB can load: its MATLAB_class, MATLAB_int_decode, MATLAB_empty and (for members of structs and cells) H5PATH attributes are those the format prescribes, numeric data is at least two-dimensional in reversed dimension order, strings are char data (uint16, or uint32 if they have characters beyond the Basic Multilingual Plane; an empty one is 1 by 0), logicals are uint8, complex numbers use the field names real and imag, cell arrays are object-reference datasets pointing into the reference group, and structs list their fields in MATLAB_fields. Decoding the file by those rules alone, without this library and ignoring the Python attributes, recovers the original data.",
  ["inputs", "configurations"],
  "All supported values, arbitrarily nested, under MATLAB-compatible options (with and without Python metadata, either oned_as, any compression settings), into new files.",
  "The MATLAB and Julia tests need those programs and are not run here; the Python tests only read back through the same library, so a layout error made consistently by writer and reader is invisible to them.",
  [I, M, U],
  [("user block", I + " File.__init__"), ("MATLAB attributes", M + " write_metadata methods"), ("storage transformations", M + " NumpyScalarArrayMarshaller.write; " + U + " write_object_array")],
  ["raw bytes of the file", "raw HDF5 objects through h5py"])

p("C05", "Without Python metadata, MATLAB data reads back as documented NumPy types",
  "Data in the MATLAB v7.3 format that carries no Python metadata reads back according to the documented conversion: numeric and logical arrays as arrays of the corresponding dtype with MATLAB's dimension order (at least two-dimensional), char arrays as NumPy unicode strings, cell arrays as object arrays, empty arrays with their recorded shape, and structs as structured arrays, or as dicts with structs_as_dicts, whose fields hold the converted members. This holds for files written by this library with store_python_metadata off and equally for files with the same layout made by other software.",
  ["inputs", "configurations"],
  "All supported values written in MATLAB format without metadata, and all MAT v7.3 layouts built directly with an HDF5 library (classes x shapes x nesting x empty x struct arrays), with structs_as_dicts on or off.",
  "Tests compare a few random samples per type written by this library; foreign layouts come from one fixed list in Julia/MATLAB tests that do not run.",
  [M, U],
  [("MATLAB_class dispatch", I + " MarshallerCollection.get_marshaller_for_matlab_class"), ("approximate readers and transposes", M + " *.read; " + U + " read_object_array")],
  ["hdf5storage.read / loadmat results"])

p("C06", "Each storage option changes what is stored exactly as documented",
  "Each storage-transformation option (structured_numpy_ndarray_as_struct, make_atleast_2d, convert_numpy_bytes_to_utf16, convert_numpy_str_to_utf16, convert_bools_to_uint8, reverse_dimension_order, store_shape_for_empty, complex_names, oned_as, group_for_references, dict_like_keys_name, dict_like_values_name) has exactly its documented effect on the stored HDF5 objects, independently of the other options, and no effect on data it does not concern. With Python and MATLAB metadata both off, no attributes are written and the data reads back as the documented plain NumPy equivalent of what was stored.",
  ["inputs", "configurations"],
  "All supported values and all combinations of the storage options (each varied independently of the others), without MATLAB compatibility.",
  "Tests use four presets of options (all off, all on, and the defaults) and check only the read-back value, never that a single option does what it says on disk.",
  [I, M, U],
  [("transformations applied on write", M + " NumpyScalarArrayMarshaller.write; PythonDictMarshaller.write"), ("reference group use", U + " write_object_array")],
  ["raw HDF5 objects through h5py", "hdf5storage.read with no metadata"])

p("C07", "Options objects stay consistent under any sequence of settings",
  "An Options object has the documented defaults; turning matlab_compatible on forces its eleven dependent options to the documented MATLAB values, setting any one of them to a different value turns matlab_compatible (only) off, and no other option ever changes another. A value that is invalid for an option is ignored or rejected without changing anything, every accepted value reads back in its documented normalised form, passing keywords to the constructor or to any reading or writing function is equivalent to setting the attributes with matlab_compatible last, and options given to a File or function are never modified by it nor do later changes to them affect an open File.",
  ["histories", "configurations", "inputs"],
  "All constructor keyword sets and all sequences of attribute assignments with valid and invalid values of any type; all reading and writing functions.",
  "Only a handful of option presets are constructed in the tests; no test exercises assignment sequences, invalid values or aliasing.",
  [I],
  [("property setters of Options", I + " class Options"), ("options copied on open", I + " File.__init__")],
  ["Options attributes", "behaviour of File and module functions given the options"])

p("C08", "Compression and checksums never change data and are applied exactly as set",
  "Whatever the compression options, the data read back is identical to that read with compression off. Each array dataset at or above the size threshold is stored with exactly the selected algorithm, gzip level, shuffle and checksum filters, those below it (or with compression off) with no compression or shuffle and a checksum only if uncompressed checksums are on, and scalars with no filters; with checksums on, corrupting stored data bytes makes reading raise an error rather than return wrong data.",
  ["inputs", "configurations", "fault_sequences"],
  "All arrays (types, shapes, sizes around the threshold, nested inside containers) x all compression option combinations; all single corruptions of stored chunk bytes; overwriting under different filter settings.",
  "The filter tests check one fixed float array shape far above or below the default threshold, and one dataset per file, with no corruption and no nested data.",
  [I, M, U],
  [("filter selection", U + " write_data / write_object_array"), ("option validation", I + " Options.compression_algorithm etc.")],
  ["filter settings of each raw HDF5 dataset", "read results under corruption"])

p("C09", "Path escaping is lossless and all equivalent path forms name the same object",
  "Escaping any non-empty string yields a usable HDF5 name (no '/', no null, no leading '.'), unescaping an escaped string gives back the original, distinct names escape to distinct names, and unescaping any text accepts exactly the documented escapes and raises ValueError for the others. A path given as str, bytes, a pathlib path or a sequence of non-empty str/bytes/pathlib elements is normalised so that equivalent forms address the same object and different element sequences never collide, in every function that takes a path.",
  ["inputs"],
  "All strings over Unicode (including NULs, slashes, backslashes, dots, invalid escapes and UTF-8 boundary cases), all path forms and depths, used in escape/unescape/process_path and in every reading, writing and mapping call.",
  "The tests try random strings with a few inserted special characters and fixed cases; interactions such as runs of backslashes next to escapes, leading periods in later components or escapes producing escapes are not enumerated.",
  [P, I],
  [("escape_path / unescape_path / process_path", P), ("path processing in File methods", I + " File.writes / reads / __contains__ / __delitem__")],
  ["hdf5storage.pathesc functions", "raw HDF5 link names", "File mapping calls"])

p("C10", "An open File behaves like a dictionary of the objects in its root group",
  "Under any sequence of item assignments, deletions, reads, membership tests, iterations, length queries, bulk reads and writes, updates, pops, clears, flushes and reopenings, a File agrees with a plain dict from unescaped root-level names to values (nested paths behaving like nested dicts): same keys, same length, same membership, same values, KeyError exactly for missing paths, and the reference group never counted or listed (iteration gives the names as stored, that is escaped). Bulk reads and writes are equivalent to the corresponding single calls in order, and a fresh open of the file sees the same contents.",
  ["histories", "inputs"],
  "All operation sequences over a File with any names (needing escapes or not), nested paths, values and options, including the position of the reference group among the names.",
  "The tests make one write and one read per file and only compare two-element multi reads/writes; MutableMapping behaviour over histories is not tested.",
  [I],
  [("MutableMapping methods", I + " class File"), ("hiding of the reference group", I + " File.__len__ / __iter__")],
  ["hdf5storage.File mapping API", "module-level read/write functions"])

p("C11", "The reference group is protected and referenced objects stay intact",
  "No path at or inside the group for references can be written or read by the user, and no group other than the root that contains it can be overwritten: such writes and reads raise an error and change nothing, while every path outside it, including siblings and prefixes of its name, stays usable for any valid setting of the group's location. Elements of containers stored through it remain exactly retrievable however many further containers are written to the file, in the same or later sessions, and every stored reference resolves to an object inside that group that no other element refers to.",
  ["histories", "inputs", "configurations"],
  "All group_for_references settings (nested, needing escapes), all paths relative to it, all sequences of container writes, overwrites and reopenings.",
  "Tests only use the default '/#refs#' with one container per file; nested locations, prefix siblings and long histories of container writes are untested.",
  [I, U],
  [("reference group checks", I + " File.writes / reads / __len__ / __iter__"), ("unused-name generation", U + " next_unused_name_in_group"), ("reference storage", U + " write_object_array / read_object_array")],
  ["File calls", "raw HDF5 references"])

p("C12", "Misuse is reported by the documented exception and has no other effect",
  "Using the library outside its contract raises the documented exception and changes no other object in the file: unsupported types raise NotImplementedError, MATLAB-incompatible types raise their documented error or are silently dropped or written according to action_for_matlab_incompatible, missing paths or files raise KeyError or OSError, writing or deleting through a read-only File and any operation on a closed File raise OSError, and arguments of wrong type or invalid value raise TypeError or ValueError. No such failure makes the File unusable or half-applies a bulk operation's already rejected argument.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "All values containing an unsupported or MATLAB-incompatible element at any depth, all invalid arguments to the public functions, all File states (read-only, closed, read-write), in any order with valid operations.",
  "The tests cover a handful of unsupported values at top level and never check the state of the file after the failure.",
  [I, M],
  [("File state checks", I + " class File"), ("type checks and MATLAB incompatibility", I + " Options; " + M + " *.write"), ("missing marshallers", U + " write_data / read_data")],
  ["exception types", "file bytes / raw content after the failure"])

p("C13", "Reading never changes the file and writing never changes its arguments",
  "Any sequence of read, membership, iteration and length operations, through a read-only or writable File or the module functions, leaves the file's bytes (for read-only access) and its HDF5 content unchanged and gives the same results when repeated. Writing leaves the written data, the options and the path arguments bit-for-bit unchanged and keeps no link to them: later changes to the written object or to objects returned by a read do not affect the file or later reads.",
  ["inputs", "histories", "configurations"],
  "All values (mutable, nested, with non-contiguous, read-only or shared arrays), options and sequences of reads.",
  "No test compares a file's bytes around reads or the data before and after a write.",
  [I, M, U],
  [("copies before in-place conversion", M + " NumpyScalarArrayMarshaller.write/read"), ("File open modes", I + " File.__init__")],
  ["file bytes", "argument snapshots before and after"])

p("C14", "Dict-like objects keep every key and value whatever the keys are",
  "A dict, OrderedDict, Counter or ChainMap is stored as one member per key when all keys are str or bytes convertible to distinct valid names, and otherwise as a keys and a values sequence under the configured names; in both forms every key (type and value), every value, the pairing between them and, where the type defines it, the order survive a round trip with Python metadata. The configured names (any two that are distinct, not empty and free of nulls), reserved-looking keys and keys needing escapes never cause a collision, loss or misinterpretation.",
  ["inputs", "configurations"],
  "All dict-like objects with keys of any supported hashable types and contents (Unicode, slashes, NULs, periods, empty, equal after decoding, equal to the configured names), values of any type, any dict_like_keys_name and dict_like_values_name, with or without MATLAB compatibility.",
  "The tests use a fixed list of key characters and random ASCII keys with homogeneous key types; collisions between keys of different types, and names interacting with keys, are not covered.",
  [M, I],
  [("key conversion and the two storage forms", M + " PythonDictMarshaller"), ("names options", I + " Options.dict_like_keys_name / dict_like_values_name")],
  ["hdf5storage.read after write", "raw HDF5 members and attributes"])

p("C15", "savemat and loadmat round-trip variables and honour their arguments",
  "savemat writes exactly the given variables as root-level variables of a MATLAB v7.3 file and loadmat returns exactly the file's variables (or those of variable_names that exist) under their names, with the values the MATLAB conversion prescribes and, where Python metadata is stored, the original objects. appendmat adds .mat exactly when the name does not end in it, truncate_existing and truncate_invalid_matlab decide whether earlier contents survive, every storage option that is given is honoured, other formats and files that are not HDF5 are dispatched to SciPy's functions with the arguments given, and a given mdict is updated in place and returned.",
  ["inputs", "configurations", "histories"],
  "All variable dictionaries, file names, argument combinations and sequences of savemat/loadmat calls on one file.",
  "Tests call savemat/loadmat once per value with a fixed name and mostly default arguments.",
  [I],
  [("savemat, loadmat", I + " savemat / loadmat"), ("truncation of invalid files", I + " File.__init__")],
  ["files created", "returned dictionaries"])

p("C16", "Marshaller selection follows the documented priority for any marshaller set",
  "For any set of user, plugin and builtin marshallers and any priority order, lookups by Python type, Python type string or MATLAB class return the marshaller that appears first in the documented order among those declaring it (user marshallers in the order added), after any sequence of add, remove and clear operations; builtin marshallers are always present, availability of required modules is reported truthfully, and a modification never leaves the collection changed when it raises. Reading and writing use exactly the selected marshaller, falling back to documented approximate reading when its modules are missing.",
  ["histories", "configurations", "inputs"],
  "All sequences of add/remove/clear over overlapping marshallers (types as classes or names, type strings, MATLAB classes, required modules present or not, module loading modes), all priority permutations.",
  "The priority tests check the six permutations for one overlapping type; histories of changes and overlaps on the other lookups are not covered.",
  [I, M, G],
  [("lookup tables", I + " MarshallerCollection._update_marshallers / get_marshaller_*"), ("module handling", I + " MarshallerCollection._import_marshaller_modules")],
  ["MarshallerCollection API", "hdf5storage.write / read with the collection"])

p("C17", "The string, complex and dtype conversion utilities are exact inverses",
  "For every input the public conversion utilities give the mathematically right result: conversions between Python/NumPy strings (trailing nulls are padding in the latter) and bytes, UTF-16 and UTF-32 code-unit arrays are mutually inverse over all of Unicode (surrogate pairs included) and agree with Python's codecs, complex encoding and decoding with any field names are inverse for every shape and precision, dtypes convert to text and back unchanged, and zero-shape detection agrees with the definition at any nesting. Inputs that cannot be converted are returned unchanged or raise, as documented, never silently altered.",
  ["inputs"],
  "All strings, byte strings, unsigned integer arrays, complex arrays and dtypes accepted by the documented utility functions.",
  "The utility tests use random arrays of one layout and strings mostly from the Basic Multilingual Plane.",
  [U],
  [("conversions", U + " convert_to_str, convert_to_numpy_str, convert_to_numpy_bytes, convert_numpy_str_to_uint16/32, decode_complex, encode_complex, convert_dtype_to_str, convert_to... , does_dtype_have_a_zero_shape")],
  ["hdf5storage.utilities functions"])

p("C18", "Reading damaged or hostile files fails cleanly and never runs code",
  "Reading any HDF5 file, whatever its objects, types, shapes and attributes (including attributes of this library or MATLAB that are wrong, missing, of the wrong type or contradict the data), either returns a value or raises an ordinary exception in bounded time (objects that contain themselves are refused; memory may be taken in proportion to declared sizes); it never executes code or imports modules named by the file, never crashes or corrupts the process, and never returns an object of a type outside the supported ones. The same file can afterwards still be read at its undamaged paths.",
  ["inputs", "fault_sequences"],
  "All mutations (attribute and data tampering, byte flips in stored structures through the HDF5 API, foreign HDF5 object kinds) of files written by the library and all small HDF5 files.",
  "No test reads a tampered file.",
  [I, M, U],
  [("type strings looked up in fixed tables", I + " get_marshaller_for_type_string"), ("attribute readers", U + " get_attribute*"), ("literal parsing", U + " / " + M + " dtype parsing")],
  ["hdf5storage.read results and exceptions", "imports and process state"])

p("C19", "Concurrent use of a File from several threads is equivalent to some order",
  "When several threads operate on one File at the same time, every operation takes effect as a whole: each read returns a value some write to that path stored (or KeyError if it may be absent), bulk operations are not interleaved with each other, no operation fails that could not fail when run alone, and the final contents equal those of some sequential order of the operations. Threads that use Files and functions on different files get the same results as when they run alone.",
  ["schedules", "histories"],
  "All small sets of threads and operations (write, read, bulk, delete, contains, iterate, len, flush, close, closed) over a shared File, under schedules controlled at every line of the library and free threads with varied switch intervals.",
  "No test uses threads at all.",
  [I],
  [("File lock", I + " File.*: with self._lock")],
  ["results of operations per thread", "final file contents"])

p("C20", "Flushed or closed data survives, and File lifecycle is exact",
  "After flush or close returns (or the with block ends, normally or by an exception, or a module-level function returns), every completed write is readable from the file by a fresh open, even if the process dies right afterwards, and the file is a valid HDF5 file. A File reports closed exactly after it was closed, closing is idempotent, opening with writable, truncate_existing and matlab_compatible options creates, preserves or truncates the file as documented, and failed opens leave an existing file unchanged.",
  ["crash_points", "histories", "configurations"],
  "All histories of writes with flushes at any position, the process killed at any point after a flush, all open modes over all initial states of the file (missing, HDF5, MAT, not HDF5).",
  "No test inspects the file without closing it normally, kills a writer, or covers the open-mode table.",
  [I],
  [("File open, flush, close", I + " File.__init__ / flush / close / __exit__")],
  ["file on disk as seen by another process", "File.closed"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props))
