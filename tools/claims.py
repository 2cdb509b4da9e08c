NA = {}
add("C01", "exploration",
    EX + "complete value x option x nesting product, strict identity oracle",
    "Every value of a ~1000-value boundary alphabet is written, closed, reopened, read and compared strictly under "
    "every combination of layout flags (quick: a strength-6 covering half of the 128) and in 15 container contexts. "
    "Nothing outside the alphabet is claimed; h5py, HDF5 and numpy are trusted.")
add("C10", "exploration",
    EX + "all short strings against a reference decoder, all spellings of all short paths against the file",
    "Complete enumeration of short strings, every single code point, escape-fragment sequences, and path spellings; "
    "longer strings are assumed to behave alike.")
add("C11", "model_checking",
    "explicit-state search of a reference model of Options, every transition replayed on the real object",
    "All reachable combinations of the MATLAB-relevant options (and, in a second projection, of the unrelated ones) "
    "and all assignments out of them; one deeper path-sensitive exploration without state copying.")
add("C20", "exploration",
    EX + "complete product of small inputs against independent encoders",
    "Strings up to length 3 over every encoding length class, string arrays, complex arrays, dtypes and attribute "
    "pairs, each compared with a reference written independently of numpy/h5py conversion code.")
add("C06", "model_checking",
    "bounded exhaustive exploration of operation sequences on the real File against a tree reference model",
    "Every sequence of File operations up to the stated depth in 7 configurations; result, exception, names, length, "
    "membership, every value (same session and after reopening) compared with the model after each sequence. Longer "
    "histories are not claimed.")
add("C05", "exploration",
    EX + "all overwrite histories up to a length, compared with a fresh file by reading and by structural dump",
    "All ordered pairs of 74 values of every type and layout class (3 option profiles fully, others on a subset), triples, "
    "foreign objects first, and options changing between the writes. With deletion off the documented merge of members is allowed.")
add("C08", "model_checking",
    "bounded exhaustive exploration of operation/session sequences against a three-state session model",
    "All sequences of two of 42 operations and up to four with session changes, on five file contents; bytes on disk are "
    "compared after every step while read-only.")
add("C07", "model_checking",
    "bounded exhaustive exploration of container histories, foreign reference-group states and internal-name choices",
    "All histories up to the depth from the empty file and 17 foreign states, and all scripts of colliding internal names; "
    "every reference in the file is resolved and checked for sharing. Longer histories are not claimed.")
add("C21", "exploration",
    EX + "all key pairs (and triples of critical keys) of an alphabet of 94 keys in every dict-like type",
    "Single keys, all ordered pairs and triples of critical keys, in dict, OrderedDict, Counter, ChainMap, nested and root "
    "dicts; all ordered pairs of 42 structured-array field names. Larger dicts only by one key-class each.")
add("C02", "exploration",
    EX + "complete value x context x option product, whole stored structure against an independent reference encoder",
    "Every value of the alphabet at top level in three groups and in 15 container contexts, with and without metadata, both "
    "orientations and all three actions, MATLAB mode. The reference encoder is written from storage_format.rst; where that is "
    "silent (type of unstructured void, compound members) it follows the first release's behaviour.")
add("C03", "exploration",
    EX + "complete value x option product, whole stored structure against an independent reference encoder",
    "Alphabet x combinations of the seven layout flags and metadata (quick: any seven of the eight), and the name/orientation "
    "options at selected flag combinations; plain mode.")
add("C22", "exploration",
    EX + "complete product of filter options and data sizes around each threshold, inspected through raw h5py",
    "Every combination of the filter options at the option level and at the write_data level with data just below, at and above the "
    "compression threshold; creation properties read back with h5py; values compared. szip only on arrays it can encode.")
add("C04", "exploration",
    EX + "every MATLAB-style file and stripped Python file of a product, against a reference decoder written from the documentation",
    "All MATLAB classes x shapes x attribute spellings built with h5py, and all alphabet values written and stripped of Python metadata, "
    "nested in structs, cells and struct arrays; strict comparison with a reference decoder.")
add("C14", "exploration",
    EX + "complete product of leaves, actions, container positions and ways to write, against a projection oracle and the reference encoder",
    "16 incompatible and 26 compatible leaves in every slot pattern of 27 containers, containers in containers (thorough: three levels), "
    "overwriting histories and non-MATLAB configurations. The result of discarding a top-level variable that exists is unspecified.")
add("C16", "exploration",
    "exhaustive fault injection on the real code: an exception before and after every h5py call of every operation, and a bad element at every position",
    "All single faults (two or more faults in one operation are not explored) of writing 30 values over several prior states in four option "
    "profiles and of 16 other operations; state compared structurally with a fresh file after writing again.")
add("C18", "exploration",
    EX + "deep before/after snapshots over values x buffers x options, and all places of option changes among file operations",
    "The value alphabet and 40 unusual buffers (views, read-only, overlapping, unaligned) in 20 option profiles; two reads compared for shared "
    "memory; option changes at every point of a two-file program.")
add("C12", "model_checking",
    "explicit-state exploration of every registration history against a reference model, executed on the real MarshallerCollection",
    "All histories of add/remove/clear/refused add/lookup up to depth 3 (thorough 4) over seven groups of three overlapping marshallers with "
    "required modules present, loaded, missing or failing to import; all priority orders, lazy and eager; plugin sets installed on disk and "
    "queried in fresh interpreters; file-level dispatch for all states of three marshallers. Plugins in conflict with one another are not "
    "explored (their order is unspecified).")
add("C13", "fault_enumeration",
    "exhaustive fault injection into stored metadata and structure, every read executed under a Python audit hook",
    "Every attribute of every kind of stored object x every malformed value, attribute pairs, structural replacements of every inner "
    "object, claimed types, nesting and truncations. HDF5's own structures are not corrupted (libhdf5 is trusted); external links and "
    "storage, followed by HDF5 itself, are out of scope.")
add("C17", "model_checking",
    "exhaustive enumeration of calls with differential execution against the File methods and a recording SciPy stand-in",
    "All calls of the six functions whose arguments differ from the usual ones in at most two (thorough: three) places, on seven "
    "prior states of the file; files, values, exception types, open handles and the SciPy hand-over are compared.")
add("C09", "model_checking",
    "explicit model of (userblock, header, variables) explored over all openings, replayed on the real File; "
    "exhaustive crash-prefix and torn-write enumeration of the recorded file operations of each opening",
    "All parameter combinations x 18 kinds of prior files x 3 ways of giving them x other holders, and all pairs "
    "(thorough: triples) of openings. For non-truncating openings every prefix of the recorded operations and every torn "
    "write has to keep all variables readable. One opener at a time; a crash is the end of the process.")
add("C19", "model_checking",
    "exhaustive enumeration of all operation histories up to a depth on the real File against a model of the acknowledged "
    "variables, checking the crash image at every acknowledgement; real process deaths bind the image to crashes",
    "All histories of up to 3 operations of 27 (4 for a core alphabet of 14; thorough one more) in 3 configurations; each ends with an acknowledgement. "
    "Killed processes are real for the short histories. Power loss (no fsync) and unflushed later operations are not covered.")
add("C15", "model_checking",
    "stateless model checking of the real code: controlled scheduler over lock operations, File opcodes and lines, all "
    "schedules up to a preemption bound, linearizability against the sequential outcomes",
    "All 171 pairs of 18 operations on one File with one preemption at any opcode of the File methods and any call of the lower modules "
    "(thorough: any line, two preemptions, all triples), longer programs, threads on own files sharing options. h5py calls are atomic.")

add("C23", "exploration",
    EX + "complete product of user types, contents, containers, option profiles, registrations and priority orders, against the built-in "
    "types with the type string exchanged and a watch on every call of a marshaller's methods",
    "14 user types derived from every built-in marshaller and from the base class, in 25 containers; ordered pairs at one path; marshallers "
    "that discard, raise or take over built-in types and MATLAB classes. Files are not read without the marshallers.")

add("C24", "exploration",
    EX + "complete product of calls, prior files and faults at every h5py call, and all operation sequences to a depth, repeated, with the open "
    "HDF5 identifiers, descriptors and directory entries counted after each",
    "97 calls on 11 prior files with a fault (I/O error or interrupt) before and after every h5py call; sequences of 28 operations to length 2 "
    "(thorough 3), each operation with every fault; values of the alphabet kept while their File is dropped. A failing close is out of scope.")

add("C25", "exploration",
    EX + "complete product of values, option profiles, calls and circumstances of the process, each result compared with that of the "
    "usual process",
    "26 circumstances (hash seeds, optimisation, locale, time zone, -bb, NumPy/h5py/decimal settings, garbage collection, threads, "
    "forks, missing directories and standard streams, descriptor limit, order and repetition of the work) x the alphabet in 3 "
    "containers x 2 profiles (thorough: 13 contexts, 3 profiles), objects of foreign files, path functions, Options, savemat/loadmat. "
    "Orders of stored sets of strings may follow the hash seed. One installed version of every library.")
