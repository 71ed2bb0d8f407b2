"""Generates properties.jsonl (kept as the single editable source of the list)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))

p("C01","Operations leave their inputs unchanged",
"No public operation modifies anything the caller passed to it or called it on: patches, coordinates, attributes, data frames, arrays, lists and dictionaries given as arguments (or reachable from them) have the same content afterwards as before. Only objects documented as sinks (open file handles, plot axes, progress bars) and an object's own private caches may change.",
["inputs","histories","programs"],"every public function and method of the library, every argument, and every path through the code including failing ones",
"A test compares one input object before and after one call; aliasing only shows for the specific argument shapes (no-copy views, dict inputs, shared lists) and nobody compares every argument of every operation.",
["dascore/proc","dascore/transform","dascore/utils","dascore/core","dascore/io","dascore/units.py"],
[("frozen models and copies before in-place steps","dascore/core/patch.py, dascore/core/attrs.py, dascore/core/coordmanager.py"),("spool data frames copied before edits","dascore/core/spool.py, dascore/utils/pd.py")])

p("C02","Patches, coordinates and attributes cannot be edited in place",
"Every data array a patch exposes is read-only, and every attribute record, coordinate and coordinate manager rejects assignment, item assignment and deletion. No code path hands out a writable patch data array or lifts the protection from an existing one.",
["inputs","programs"],"every way a patch, coordinate, coordinate manager or attribute record can be constructed",
"Tests try assignment on one or two sample objects; they do not enumerate the construction routes or the model classes.",
["dascore/core/patch.py","dascore/compat.py","dascore/utils/models.py","dascore/utils/mapping.py","dascore/core/attrs.py","dascore/core/coords.py","dascore/core/coordmanager.py"],
[("read-only flag set on arrays","dascore/compat.py array"),("frozen model configuration","dascore/utils/models.py DascoreBaseModel"),("immutable mapping","dascore/utils/mapping.py FrozenDict")])

p("C03","A patch's data, dimensions and coordinates always agree in shape",
"Every patch that the library hands out has passed the check that its data shape equals the shape implied by its coordinates and that its dimension names match between attributes and coordinates; every coordinate manager has passed the check that each coordinate's shape equals that of the dimensions it is attached to. No construction route skips these checks.",
["inputs","programs"],"every construction route of patches and coordinate managers, on every path",
"Tests reach a sample of construction routes with consistent inputs; a skipped check is invisible until an inconsistent input arrives.",
["dascore/core/patch.py","dascore/core/coordmanager.py","dascore/proc/basic.py"],
[("shape validation","dascore/core/coordmanager.py validate_data"),("dims check","dascore/core/patch.py"),("model validators","dascore/core/coordmanager.py CoordManager")])

p("C04","Changed coordinates are always reflected in the attributes",
"Whenever an operation produces a patch with coordinates different from its input's, the attributes of the result (dimension names and per-coordinate start, stop, step and units) are recomputed from the new coordinates rather than carried over from the input.",
["inputs","programs"],"every operation that builds a patch from changed coordinates",
"Tests compare attributes with coordinates for a few operations; the fast construction route trusts its caller at every call site.",
["dascore/core/patch.py","dascore/proc/basic.py","dascore/proc/rolling.py","dascore/utils/array.py","dascore/proc/coords.py","dascore/transform"],
[("trusted construction","dascore/core/patch.py Patch.from_parts"),("attribute regeneration","dascore/proc/basic.py update")])

p("C05","Every processing step is recorded in the patch history",
"Every named patch method that changes data or coordinates (filters, transforms, aggregations, resampling, unit and coordinate changes, rolling, concatenation, stacking) appends an entry naming that operation after all earlier entries of the history, none of which is lost or reordered. Selection, ordering, transposing, low-level updates and arithmetic operators add no entry of their own but keep the existing ones.",
["inputs","histories","programs"],"every processing operation offered on a patch and every sequence of them",
"Tests look at the history after a couple of calls; each operation opts in separately and can lose or duplicate history on its own return path.",
["dascore/utils/patch.py","dascore/proc","dascore/transform"],
[("decorator that appends history","dascore/utils/patch.py patch_function")])

p("C06","Operations check their declared prerequisites before running",
"An operation that declares required dimensions, coordinates or attributes raises the documented error when the patch lacks any of them, before any of its own code runs. The requirement each operation declares covers every dimension or coordinate it looks up by a fixed name, and operations whose computation needs an evenly sampled or sorted coordinate raise when it is not.",
["inputs","configurations"],"every operation with fixed-name requirements and every patch lacking one of them",
"A test would need a patch lacking each required name for each operation.",
["dascore/utils/patch.py","dascore/transform","dascore/proc","dascore/viz"],
[("requirement checks","dascore/utils/patch.py patch_function, check_patch_coords, check_patch_attrs")])

p("C07","Results do not depend on the order of a patch's dimensions",
"Operations locate the axis of a dimension by its name: transposing a patch, applying an operation and transposing back gives the same result as applying it directly. No operation assumes that a named dimension sits at a fixed position of the data array unless it has itself arranged the data in that order first.",
["inputs","configurations"],"every processing and transform operation and every permutation of the input's dimensions",
"Nearly all test patches use one dimension order.",
["dascore/proc","dascore/transform","dascore/utils"],
[("axis lookup","dascore/utils/patch.py get_dim_axis_value, dascore/core/patch.py get_axis")])

p("C08","A request naming several dimensions is applied to all of them",
"When a call names several dimensions (or several coordinates) in one request, the operation takes effect on each of them, each step building on the result of the previous one; none is silently skipped or overwritten by a later one.",
["inputs"],"every operation that accepts several dimensions or coordinates and every combination",
"Tests mostly pass one dimension, and for one dimension lost updates cannot be seen.",
["dascore/proc","dascore/transform","dascore/core/coordmanager.py"],
[("loops over requested dimensions","dascore/proc/filter.py, dascore/proc/taper.py, dascore/transform/fourier.py, dascore/core/coordmanager.py")])

p("C09","Data and coordinates are always re-indexed together",
"Selecting, ordering, sorting, dropping missing values, padding, rolling, decimating or any other operation that keeps, removes or permutes samples along a dimension applies one and the same index to the data and to every coordinate attached to that dimension.",
["inputs"],"every re-indexing operation, every set of associated coordinates and every index",
"Tests check lengths on simple patches without additional (non-dimensional or multi-dimensional) coordinates.",
["dascore/proc/coords.py","dascore/core/coordmanager.py","dascore/proc/basic.py"],
[("paired re-indexing","dascore/core/coordmanager.py _get_indexer / new array handling")])

p("C10","Partial reads apply the requested range to data and coordinates",
"For every supported file format, reading with a range on a supported dimension yields a patch in which both the data and the coordinates were cut with that range, along the right axis. A requested range is never silently ignored for either of them, and an untrimmed read keeps everything.",
["inputs","configurations"],"every reader that accepts range arguments and every range, including ranges on one dimension only",
"Most vendor formats have little or no sample data in the test-suite, and tests mainly use one range on the time axis.",
["dascore/io"],
[("reader selection","dascore/io/*/core.py read, dascore/io/*/utils.py")])

p("C11","Files opened by the library are closed on every exit",
"Every file the library opens itself while detecting, scanning, reading, writing or indexing is closed by the time the call returns or raises, including when parsing fails part-way; files opened by the caller are left open.",
["inputs","fault_sequences","crash_points"],"every open site and every exit, normal or exceptional",
"Leaks on exceptional exits need a failure at each particular statement and then a look at the process's handles.",
["dascore/io","dascore/utils/io.py","dascore/utils/hdf5.py"],
[("resource manager","dascore/utils/io.py IOResourceManager"),("automatic casting of resources","dascore/io/core.py _type_caster")])

p("C12","Reading, scanning and detecting never modify data files",
"No code reachable from format detection, scanning or reading opens a source file for writing, truncates, renames, deletes or creates anything next to it; only the write functions and the directory index write files. Opening for append never truncates what is already stored.",
["inputs","programs"],"every reader, scanner and format detector, on every file",
"A write-capable open leaves file content intact in tests; the harm shows on read-only media, under concurrent access or after a crash.",
["dascore/io","dascore/utils/io.py","dascore/utils/hdf5.py"],
[("resource classes and their modes","dascore/utils/io.py, dascore/utils/hdf5.py")])

p("C13","Detected and scanned files are attributed to the right path and format",
"Every format plugin identifies files under its own registered name and version, and each summary its scan returns carries the path, format name and format version of the scanned file. Every plugin class is reachable through exactly one registration and no two plugins claim the same name and version.",
["inputs","configurations"],"every registered format and version",
"Vendor formats lack sample data; the catalogue written for a directory silently points to the wrong reader when one of these fields is off.",
["dascore/io","pyproject.toml"],
[("plugin registry","dascore/io/core.py _FiberIOManager, FiberIO.__init_subclass__"),("per-format scan","dascore/io/*/core.py")])

p("C14","One unreadable file or failing plugin never breaks work on the others",
"During format detection an exception inside one plugin's detector only rules out that plugin, and during scanning of many files a file that cannot be scanned is skipped with a warning while all other files are still returned. User interrupts are never swallowed.",
["inputs","fault_sequences"],"every subset of files or plugins failing in any way",
"Tests inject one or two failures of one exception type.",
["dascore/io/core.py","dascore/io/indexer.py"],
[("detection loop","dascore/io/core.py get_format"),("scan loop","dascore/io/core.py scan, _iterate_scan_inputs")])

p("C15","An interrupted or concurrent index update never hides files",
"The directory index records its update time only after the rows of all scanned files were stored, and that time is taken before the scan begins, so that files changed during or after an interrupted update are picked up by the next one. Cached index content is dropped whenever the stored index changes.",
["crash_points","histories","schedules"],"every crash point inside an index update and every file modification time relative to it",
"Tests run updates to completion; a crash between two writes or a file appearing during the scan is never exercised.",
["dascore/io/indexer.py","dascore/utils/hdf5.py"],
[("index update","dascore/io/indexer.py DirectoryIndexer.update"),("index tables","dascore/utils/hdf5.py HDFPatchIndexManager")])

p("C16","What is persisted under a name is read back under the same name",
"Every group, dataset, attribute and column name used when writing a native file or a directory index is the one used when reading it back, and every encoding applied on writing has its decoding applied on reading (and vice versa).",
["inputs","histories"],"every persisted field of the native format and of the index, for every dtype",
"Round-trip tests cover the default example patches; a field that is optional, rare or of another dtype is not round-tripped.",
["dascore/io/dasdae","dascore/utils/hdf5.py","dascore/io/indexer.py"],
[("native writer/reader","dascore/io/dasdae/utils.py"),("index encoders","dascore/utils/hdf5.py")])

p("C17","Inverse transforms consume exactly what the forward transforms store",
"Every piece of bookkeeping a forward transform stores on its result for later inversion is stored on every path, and the inverse transform uses only bookkeeping that the forward transform stores, removes it all from its own result and restores the original coordinates and data type information.",
["inputs","histories"],"every forward/inverse transform pair and every path through them",
"Round-trip tests sample few option combinations; a field missing only for padded, real or partial transforms is not seen.",
["dascore/transform/fourier.py"],
[("dft/idft","dascore/transform/fourier.py"),("stft/istft","dascore/transform/fourier.py")])

p("C18","Spools derived from a spool are independent and never stale",
"Selecting, sorting, splitting, chunking or updating a spool returns a new spool, leaves the old one's contents unchanged and carries the pending selections and merge options over; no spool serves content cached before its source tables were changed.",
["histories","inputs"],"every sequence of spool operations",
"Tests run short chains on fresh spools; staleness needs access between derivations.",
["dascore/core/spool.py","dascore/clients/dirspool.py","dascore/clients/filespool.py"],
[("derivation","dascore/core/spool.py new_from_df"),("cached frames","dascore/utils/misc.py CacheDescriptor")])

p("C19","The library works without its optional dependencies",
"Importing the library and using anything that does not need an optional package works with that package absent; when an operation does need one that is absent, it raises the documented missing-dependency error. Only the declared required dependencies, and packages which those install, are imported unconditionally.",
["configurations"],"every subset of the optional packages being absent",
"The test environment has one fixed set of packages installed.",
["dascore","pyproject.toml"],
[("optional imports","dascore/utils/misc.py optional_import")])

p("C20","Library calls leave process-wide state alone",
"No library call seeds or draws from the global random generator, or changes warning filters, floating-point error handling, working directory, environment variables, locale, the global options of plotting and table libraries, or pyplot's current figure and axes, other than inside a scope that restores the previous state on every exit.",
["histories","inputs","programs"],"every library function and every program that calls it",
"A test sees only the function's own result; the effect appears in unrelated code of the caller.",
["dascore"],
[("scoped state changes","dascore/utils/misc.py")])

p("C21","Cached results are always what recomputation would give",
"Every memoised function depends only on its arguments: not on file contents, clocks, environment or mutable global or object state. A value held in such a cache is never modified by code that obtained it.",
["histories","inputs"],"every cached function and every sequence of calls and external changes between them",
"Tests call cached functions once per argument or without changing the outside world between calls.",
["dascore"],
[("memoisation decorators","dascore/units.py, dascore/core/coords.py, dascore/utils/misc.py, dascore/io")])

p("C22","Named operations and operators compute what their name says",
"Each arithmetic, comparison and bitwise operator on a patch applies the element-wise operation it denotes with operands in written order (also for reflected operators), and each named aggregation, rolling statistic, window or moving filter dispatches to the computation of that name, whichever backend is installed.",
["inputs","configurations"],"every operator, reflected operator and named statistic, with every backend",
"Tests cover some operators with commutative data and only the installed backend.",
["dascore/core/patch.py","dascore/utils/array.py","dascore/proc/aggregate.py","dascore/proc/rolling.py","dascore/utils/moving.py","dascore/proc/taper.py"],
[("operator methods","dascore/core/patch.py"),("dispatch tables","dascore/proc/aggregate.py, dascore/utils/moving.py, dascore/proc/rolling.py")])

p("C23","Results do not depend on hash ordering",
"The order of anything the library returns or stores (dimensions, coordinates, columns, rows, files, plugins) never derives from the iteration order of an unordered set or from a salted hash, so the same call gives the same result in every process.",
["configurations","schedules"],"every process hash seed",
"A test run uses one hash seed, and small sets often iterate in the expected order by luck.",
["dascore"],
[("ordered outputs","dascore/core, dascore/io, dascore/utils")])

p("C24","Errors are never silently swallowed",
"An exception raised while processing, reading or writing reaches the caller or is turned into a warning or a documented fallback value of the very operation being attempted; no handler broad enough to hide arbitrary programming or input errors continues silently outside the format-detection and plugin-loading loops.",
["inputs","fault_sequences"],"every exception handler in the library and every exception that can reach it",
"Tests assert on the errors they anticipate.",
["dascore"],
[("exception handlers","dascore/**")])

# ---- properties for which no sound static argument is in reach
p("N01","Chunking and merging neither lose nor duplicate samples",
"Re-chunking or merging a spool yields patches whose union is exactly the data of the source patches (up to the requested overlap and the documented dropping of partial chunks).",
["inputs","histories"],"every arrangement of source patches, gaps, overlaps and chunk sizes",
"Tests use a few arrangements.",["dascore/utils/chunk.py","dascore/core/spool.py"],[("chunk planning","dascore/utils/chunk.py")])
p("N02","Writing and reading a patch returns an equal patch",
"A patch written to a supported writable format and read back equals the original up to documented losses.",
["inputs"],"every patch","Tests round-trip example patches.",["dascore/io"],[("writers and readers","dascore/io")])
p("N03","Time arithmetic keeps nanosecond precision",
"Conversions between time representations lose no precision beyond one nanosecond for representable values.",
["inputs"],"every representable time","Tests use sample values.",["dascore/utils/time.py"],[("time conversion","dascore/utils/time.py")])
p("N04","Unit conversions give numerically correct values",
"Converting units multiplies or maps values exactly as the unit definitions prescribe.",
["inputs"],"every unit pair and value","Tests sample units.",["dascore/units.py"],[("conversion","dascore/units.py")])
p("N05","Filters and transforms are numerically correct",
"Filter responses, spectra, integrals and derivatives agree with their mathematical definition within documented accuracy.",
["inputs"],"every signal and parameter","Tests compare few signals.",["dascore/proc","dascore/transform"],[("numerics","dascore/proc, dascore/transform")])
p("N06","Selections include exactly the samples inside the requested range",
"A range selection keeps exactly the samples whose coordinate lies in the closed requested range.",
["inputs"],"every coordinate and range","Tests sample ranges.",["dascore/core/coords.py"],[("range lookup","dascore/core/coords.py")])
p("N07","Concurrent processes can share one directory index",
"Several processes updating and querying the same directory index always see a consistent index.",
["schedules"],"every interleaving","Not tested.",["dascore/io/indexer.py"],[("index file locking","dascore/utils/io.py, dascore/utils/hdf5.py")])
with open("properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
