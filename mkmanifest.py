"""Regenerates MANIFEST.json from properties.jsonl, the rule modules present and the notes below."""
import json, os
TECH = {
 "C01": ("interprocedural may-alias and mutation analysis (abstract interpretation over the AST)", "Every public function is an entry; any in-place effect that may reach an object of the caller is reported. Trusts the tables of numpy/pandas view and mutator behaviour and bounds call depth."),
 "C02": ("value-flow of the read-only lock into patch slots, class-configuration and field-type lint", "Enumerates all stores into patch slots, all model classes and fields; trusts pydantic's frozen semantics and numpy's write flag."),
 "C03": ("construction-route value flow plus must-pass guard analysis", "Every route into a Patch's slots is shown to pass the shape and dimension guards; the guards' comparisons are inspected, not executed."),
 "C04": ("path-splitting abstract interpretation of coordinate/attribute provenance at every patch construction site", "Enumerates every construction of a patch; attributes must be recomputed from, or cleared of, the coordinates whenever those may differ from the input's."),
 "C05": ("decorator/registry lint, must-pass path analysis of the recording wrapper and attribute-provenance slices", "Every Patch method is enumerated; the recording wrapper is analysed on all paths. Unrecorded methods are an explicit list; exactly-once is not claimed."),
 "C06": ("must-precede path analysis of the prerequisite checks, requirement-versus-lookup comparison over each operation's call closure", "All operations enumerated; documented requirements of four operations and the sampling requirements of thirteen are a fixed table."),
 "C07": ("data-layout abstract interpretation: axis positions and array layouts tracked from patches through operations and helpers", "All operations and the helpers they hand arrays to are enumerated; values the analysis cannot follow (containers, user callables) are not judged; plotting is outside."),
 "C08": ("loop-carried dataflow over request loops (chaining/accumulation) plus early-exit path lint", "Enumerates every loop whose iterable derives from a multi-name request; a loop that only looks names up or builds keyed containers is exempt. Plain helper loops over already-split lists are not judged."),
 "C12": ("effect analysis over a resolved call graph with constant-folded open modes", "Every detect/scan/read entry of every plugin; all reachable file-system effects are classified by constant mode. Unresolvable calls on third-party objects are trusted to be read-only."),
 "C11": ("resource-ownership analysis: every open site must be closed, returned or owned by a context manager on normal and exceptional exits", "All opening sites in the package (constant-resolved constructors and the handle classes) and the handle manager; ownership hand-over through return values is followed. Third-party libraries are trusted to close what they open."),
 "C13": ("interprocedural symbolic term evaluation of detector answers and of the identity fields each scanner stores, registry table agreement", "Every registered plugin class, every return of every detector and every store of path/format/version in every scanner; the values must be the plugin's own registered constants or the detected version."),
 "C14": ("exception-coverage analysis of call chains inside the scan, detection and plugin-loading loops", "All chains from the three loops to plugin or file steps, helpers followed; all handlers of the package for interrupt swallowing. Directory walking itself is assumed to succeed."),
 "C19": ("import-effect analysis: guardedness of every import of a non-required package, import-time call closure, constant-propagating reachability of raising optional imports", "All import statements and constant dynamic imports of the package; all public entries are explored with their default arguments through resolvable calls. Calls on receivers of unknown type are not followed."),
 "C20": ("effect lint over all resolved references and stores: process-wide state changers must be scoped or restored on every exit", "Every reference and store in the package is resolved through imports and aliases against a fixed table of state-changing APIs of the standard library, numpy, pandas, matplotlib; APIs outside the table are not judged."),
 "C22": ("operator-to-function reduction by symbolic argument binding, operand-order tracking through the dispatcher, name-to-implementation table agreement", "Every operator method, every named aggregation, rolling statistic, moving filter, window and element-wise member; operand order is tracked for each combination of patch and array. What numpy, scipy, bottleneck and pandas compute is trusted."),
 "C23": ("order-taint dataflow: values whose order stems from set iteration or salted hashes tracked to order-sensitive uses", "All set-valued expressions and salted-hash calls of the package; set types are inferred from constructors, annotations and operations within functions and through returns. Uses that only test membership, sort, count or rebuild a set are clean; sets whose order reaches third-party code through unknown calls are reported conservatively only where the callee keeps order."),
 "C24": ("exception-flow lint: silent paths of every handler against the specificity of the caught classes and the weight of the covered code (call closure)", "Every except clause, suppress context, finally exit, __exit__ and coercing conversion; nine silent clauses are reviewed exceptions keyed by module and classes. Errors avoided beforehand (getattr defaults, early returns) are not exceptions and not judged."),
 "C15": ("path-sensitive event-order analysis of the index update (clock reading, scan, row store, time store, cache drop) through its callees, exceptional edges included", "The update and every function it calls down to the HDF5 store; HDF5 crash safety and the clocks of file systems are trusted."),
"C16": ("string-pattern constant propagation of persisted names and encodings: writer/reader agreement over all reachable stores and loads", "Names of groups, arrays and attributes of the native format, the index tables and the seg-y trace headers are evaluated through locals, helpers and properties; names with unknown parts are compared as patterns. What HDF5 does with values is trusted; other formats are read only."),
 "C17": ("cross-procedure bookkeeping agreement: string-pattern propagation of stored/looked-up/removed keys, path conditions of each, value identity of rebuilt transformer parameters", "Both transform pairs with all their helpers; names with unknown parts are compared as patterns. The numeric inversion itself is not judged."),
 "C18": ("aliasing/effect analysis of spool methods, provenance of derived tables from the new contents, must-facts of the constructor of derived spools", "All methods of the spool classes: tables, instructions, sources, pending selections and merge options of every derivation; caches shared or stale. Four recorded findings. Which rows a selection keeps is not judged."),
 "C21": ("purity of memoised functions over the call graph (files, clock, environment, mutable state), must-invalidate flow of state changes, cache-key coverage, alias tracking of cached values", "All memoised functions with everything they call, the package's own memoising decorator, hand-written and table caches. Two recorded findings. Cached values handed to user code are out of reach."),
    "C09": ("abstract interpretation of every re-indexing operation on a model patch in which each axis of the data and of each coordinate carries the sequence of index expressions applied to it; both sequences along one dimension must be the same", "select, order, sort, snap, dropna, pad, roll, flip, decimate, correlate_shift, transpose, align_patch_coords on the manager and on the patch; along each dimension, both, and a coordinate that is no dimension; both orders; coordinates on time, on distance, on both and on none; indices that shorten and that permute. Coordinates' own select/order/sort/align_to: the coordinate and the index returned beside it. numpy indexing is trusted; CoordRange's computed limits are not decided."),
    "C10": ("abstract interpretation of every reader, once for each choice of which ranges are given, with labels (uncut / cut along d) on data, indices and coordinates: nothing returned may be uncut along a dimension whose range was given", "33 reader classes with range arguments, every subset of their ranges, through all their helpers; ranges under their own name, limits in order, right axis where the index is written out, no default trimming. CoordManager.select and BaseCoord.select are trusted to cut (C09); conditions other than which ranges are given may go either way."),
}
NA = {
 "N01": "Needs the arithmetic of interval boundaries for arbitrary sampling and overlaps at run time; no static argument in reach bounds floating-point/timedelta chunk edges.",
 "N02": "Equality of the round-tripped values depends on numeric content and on HDF5/segy/wav libraries; only the naming/encoding agreement (C16) is statically decidable.",
 "N03": "Numeric precision of conversions over runtime values; needs numeric reasoning, not source inspection.",
 "N04": "Numeric correctness of unit factors depends on pint's registry contents and runtime values.",
 "N05": "Numerical accuracy of filters and transforms is a property of runtime floating-point values and of scipy.",
 "N06": "Which samples fall inside a range depends on runtime coordinate values and float comparisons.",
 "N07": "Depends on file-system and HDF5 locking behaviour of concurrent processes outside the source.",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"sa/rules/{i.lower()}.py") and i in TECH:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 -m sa.check {i} quick", thorough_cmd=f"python3 -m sa.check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique="static analysis: " + t, level="other", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check claimed yet.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
