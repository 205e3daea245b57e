#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when the table changes)."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/earthkit/regrid/"

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, level, technique, note, observe=None, state=None):
    anchors = {
        "files": [S + f if not f.startswith("tools") else f for f in files],
        "mechanism": [{"name": n, "where": S + w if not w.startswith("tools") else w} for n, w in mechanism],
        "observe_at": observe or [],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": S + c} for a, b, c in state]
    P.append(
        dict(
            prop=dict(
                id=pid,
                title=title,
                statement=statement,
                quantifier={"over": over, "text": text},
                why_tests_cant=why,
                anchors=anchors,
            ),
            level=level,
            technique=technique,
            note=note,
        )
    )


prop(
    "C01",
    "Precomputed regridding applies exactly the named inventory's weights",
    "regrid() with precomputed weights returns the product of the weight matrix that the named inventory holds for the "
    "requested input grid, output grid and interpolation method (aliases of a method included) with the flattened field, "
    "in the output grid's shape, together with the requested output gridspec, whatever the dtype and memory layout of the "
    "field, whichever other inventories are in use, and whatever the current directory when the path of the inventory is relative. "
    "When that inventory holds no such weights it raises ValueError and never uses weights of another grid pair, method or inventory. "
    "A field with the wrong number of values is refused.",
    ["inputs", "histories"],
    "all inventories, all grid pairs and methods in or not in them, all fields, all sequences of calls over several inventories",
    "The tests compare a few grid pairs of one small inventory with stored results; mixing up weights between inventories, "
    "methods or fields of other layouts needs combinations they do not sample.",
    ["backends/precomputed.py", "backends/db.py", "backends/__init__.py", "data/numpy.py", "array/regrid.py"],
    [
        ("product of the weights and the values", "backends/precomputed.py:MatrixBackend.regrid"),
        ("selection of the index entry", "backends/db.py:MatrixIndex.find"),
        ("method aliases", "backends/db.py:MatrixDb._method_alias"),
        ("one backend per inventory", "backends/__init__.py:BackendMaker"),
    ],
    "exploration",
    "runtime result oracle: reference sparse product over generated inventories, audit-hook monitor of weight file reads",
    "Held on the inventories, queries and fields that were generated; trusts numpy arithmetic and scipy's .npz format.",
    ["earthkit.regrid.array.regrid()"],
)

prop(
    "C02",
    "The in-memory weights cache never changes what a regrid returns",
    "Whatever the policy, size limit and strict mode of the in-memory weights cache, however these are changed or the cache "
    "cleared in between, and whatever the sequence of regrids over several inventories, each regrid returns the same values, "
    "shape and gridspec as it does with the cache off. "
    "The only permitted difference is the ValueError of the strict mode when the weights cannot fit.",
    ["histories", "configurations"],
    "all interleavings of regrids over several inventories, configuration changes and clearings",
    "The tests run a handful of fixed sequences and look at the cache statistics rather than at the values.",
    ["utils/memcache.py", "backends/db.py", "utils/hash.py"],
    [
        ("cache key", "utils/memcache.py:MemoryCache.get"),
        ("source of the weights in the key", "backends/db.py:MatrixDb.find"),
        ("reaction to config changes", "utils/memcache.py:MemoryCache.update"),
    ],
    "exploration",
    "differential runtime monitor: random histories, each result compared with the reference product and the cache-off result",
    "Held on the generated histories.",
    ["earthkit.regrid.array.regrid()", "earthkit.regrid.memory_cache_info()"],
)

prop(
    "C03",
    "The in-memory cache stays within its limit and its statistics are exact",
    "After every operation the memory reported for the in-memory cache equals the memory of the weights it holds, and with a limited policy it never "
    "exceeds the configured maximum. "
    "Each regrid with the cache enabled counts as exactly one hit, when the weights for the same request were held and no weight file is read, or one miss, and an unlimited cache reads every "
    "matrix once. "
    "Clearing the cache or turning it off empties it and zeroes the statistics, and the reported policy and maximum are those of the configuration.",
    ["histories", "configurations"],
    "all sequences of regrids, clearings and configuration changes, all weight sizes and limits",
    "Statistics and limits are asserted for three matrices of known size in fixed order; drift of the accounting shows only in longer histories.",
    ["utils/memcache.py", "utils/matrix.py"],
    [
        ("accounting on insertion", "utils/memcache.py:MemoryCache.get"),
        ("reduction to the limit", "utils/memcache.py:MemoryCache._reduce"),
        ("size of a matrix", "utils/matrix.py:matrix_memory_size"),
    ],
    "exploration",
    "runtime monitor of the published statistics against an executable model of the cache, audit-hook monitor of weight file reads",
    "Held on the generated histories.",
    ["earthkit.regrid.memory_cache_info()", "open events of weight files"],
    [("currsize", "bytes of weights held", "utils/memcache.py:MemoryCache.info")],
)

prop(
    "C04",
    "In-memory eviction follows the policy and strict mode never overcommits",
    "When room is needed the largest policy evicts the largest weights first and the lru policy the least recently used "
    "first, no more than needed to stay within the limit, so weights that the policy keeps are not read again. "
    "In strict mode weights that are too large for the limit raise ValueError without evicting what is held and without being read, and "
    "weights that fit after evictions are used.",
    ["histories", "configurations"],
    "all access histories, all size mixes around the limit, both limited policies, strict or not",
    "The tests exercise one eviction order with three matrices of similar size.",
    ["utils/memcache.py"],
    [
        ("largest first", "utils/memcache.py:LargestPolicy.reduce"),
        ("least recently used first", "utils/memcache.py:LRUPolicy.reduce"),
        ("check before loading", "utils/memcache.py:MemoryCache._create_with_pre_check"),
    ],
    "exploration",
    "trace oracle: the sequence of weight file reads of each history is compared with an executable model of the policy",
    "Held on the generated histories; sizes are drawn so that the sums never equal the limit exactly.",
    ["open events of weight files", "earthkit.regrid.memory_cache_info()"],
)

prop(
    "C05",
    "Concurrent regrids and configuration changes stay consistent",
    "When several threads regrid with precomputed weights, read the cache statistics, clear the in-memory cache, read and change its configuration "
    "at the same time, every regrid returns the result it returns alone, none fails and nothing deadlocks. "
    "Every snapshot of the statistics is consistent and within the limit in force, no hit or miss is lost, and with an unlimited cache every matrix is read exactly once.",
    ["schedules"],
    "all thread interleavings of regrids, statistics, clearing and configuration changes, including the first use of an inventory",
    "All tests are single-threaded.",
    ["utils/memcache.py", "backends/db.py", "backends/__init__.py", "utils/config.py"],
    [
        ("lock of the memory cache", "utils/memcache.py:MemoryCache.lock"),
        ("publication of the loaded index", "backends/db.py:MatrixDb._load_index"),
    ],
    "exploration",
    "stress with delay injection at source lines (sys.settrace) and tiny switch interval; per-call result oracle, conservation of hits and misses, exactly-once read monitor",
    "Held on the interleavings that were executed; no race detector for pure Python exists.",
    ["earthkit.regrid.array.regrid()", "earthkit.regrid.memory_cache_info()"],
)

prop(
    "C06",
    "Weights are never matched to a different grid",
    "A query to an inventory is only ever answered with weights whose input and output grids are the same grids as the queried ones: "
    "grids that differ in type, resolution, scanning mode, HEALPix ordering, ORCA name or subtype, stated shape, or covered area (beyond the documented tolerance) do not match. "
    "A grid description that is not supported never yields weights.",
    ["inputs"],
    "all pairs of grid descriptions",
    "About 80 fixed gridspecs are tested against one inventory; soundness is over all pairs of grids.",
    ["gridspec.py", "backends/db.py"],
    [
        ("comparison of grids", "gridspec.py:GridSpec.__eq__"),
        ("lat-lon areas", "gridspec.py:LLGridSpec.__eq__"),
        ("Gaussian areas", "gridspec.py:ReducedGGGridSpec.__eq__"),
        ("HEALPix ordering", "gridspec.py:HealpixGridSpec.__eq__"),
    ],
    "exploration",
    "runtime differential monitor: each answered query is identified by its unique weights and judged by an independent model of grid identity",
    "Held on the generated pairs; values within a factor of the matching tolerances are not generated. The area of HEALPix and ORCA grids is documented as unsupported and left out.",
    ["earthkit.regrid.array.regrid()"],
)

prop(
    "C07",
    "Every equivalent spelling of a grid finds the same weights",
    "All the descriptions of the same grid that are supported find the same weights: letter case of the grid name, tuple or list, int or float, "
    "with or without the grid type, shape, scanning mode defaults, global flag or global area (explicit, closed at 360 degrees, shifted by full turns, or in the form used by the index), order or "
    "ordering with ring as the default, and nested or other alias forms of the method. "
    "The outcome does not depend on the order of the entries in the index nor on earlier queries.",
    ["inputs", "histories"],
    "all supported grids and all combinations of their spellings",
    "The tests try a few spellings for a few grids; combinations are not sampled.",
    ["gridspec.py", "backends/db.py"],
    [
        ("normalisation", "gridspec.py:GridSpec.from_dict"),
        ("type inference", "gridspec.py:GridSpec._infer_spec_type"),
        ("global grids", "gridspec.py:LLGridSpec.is_global_ew"),
        ("method aliases", "backends/db.py:MatrixDb._method_alias"),
    ],
    "exploration",
    "metamorphic runtime monitor: rewritten gridspecs must select the weights (unique per entry) of the original",
    "Held on the generated spellings.",
    ["earthkit.regrid.array.regrid()"],
)

prop(
    "C08",
    "MIR array regridding returns what MIR computes, independent of history",
    "regrid() of an array with the MIR backend returns the values and the output grid that MIR itself computes for that field, input grid, output grid and "
    "interpolation, with the shape of the output grid. "
    "The result depends only on the arguments: it is the same on repetition, after any other regrids, in any thread, and for single and double precision contiguous fields of any supported shape.",
    ["inputs", "histories", "schedules"],
    "all supported grid pairs, interpolations, fields and histories of calls",
    "A few grid pairs are compared with stored references.",
    ["backends/mir.py", "data/numpy.py", "array/regrid.py"],
    [("MIR job", "backends/mir.py:MirBackend.regrid")],
    "exploration",
    "differential runtime oracle: MIR driven directly, analytic fields and repeated or concurrent execution",
    "Held on the generated jobs; trusts MIR itself.",
    ["earthkit.regrid.array.regrid()"],
)

prop(
    "C09",
    "The interpolation options reach MIR for every kind of input",
    "The documented options of the MIR backend (interpolation, nearest_method, distance, distance_tolerance, nclosest and the area of the output grid) take effect with exactly the value given, "
    "for arrays, GRIB messages, fields, fieldlists and xarray objects alike, and the documented defaults when not given. "
    "Unknown options or values are refused rather than ignored, and options given to one call do not affect another.",
    ["inputs", "configurations"],
    "all combinations of options and values, all kinds of input",
    "The tests check that a call with options runs, mostly with the defaults.",
    ["backends/mir.py", "data/grib.py", "data/fieldlist.py", "data/xarray.py"],
    [
        ("options of the job", "backends/mir.py:MirBackend.job_options"),
        ("area", "backends/mir.py:MirBackend.adjust_options"),
        ("GRIB options", "backends/mir.py:MirBackend.regrid_grib"),
    ],
    "exploration",
    "runtime monitor of the options each MIR job receives (recording job) plus differential results against MIR driven directly",
    "Held on the generated combinations.",
    ["mir.Job", "earthkit.regrid.regrid()"],
)

prop(
    "C10",
    "GRIB messages, fields and fieldlists regrid field by field",
    "Regridding a GRIB message (bytes or stream) returns one message as bytes, a field a field, and a fieldlist a fieldlist with one output field per input field in the same order, "
    "each with the metadata of its input, the requested output grid, and values equal (to GRIB packing precision) to regridding the array of its values. "
    "The result does not depend on the other fields of the list.",
    ["inputs"],
    "all lists of GRIB fields, output grids and interpolations, both backends",
    "One constant GRIB field is used throughout; order, metadata and values across fields are not distinguished.",
    ["data/fieldlist.py", "data/grib.py", "backends/mir.py", "backends/precomputed.py"],
    [
        ("fields through GRIB", "data/fieldlist.py:FieldListDataHandler._regrid_grib"),
        ("fields through arrays", "data/fieldlist.py:FieldListDataHandler._regrid_array"),
        ("messages", "data/grib.py:GribMessageDataHandler.regrid"),
    ],
    "exploration",
    "differential runtime oracle: fields of generated GRIB messages against the array path, order and metadata monitors",
    "Held on the generated lists; trusts ecCodes decoding.",
    ["earthkit.regrid.regrid()"],
)

prop(
    "C11",
    "xarray regridding keeps dimensions, coordinates and slices",
    "Regridding an xarray DataArray or Dataset regrids each horizontal slice of each variable exactly as the array interface does, keeps all other dimensions, "
    "their order and their coordinates, and replaces the horizontal dimensions by those of the output grid with the latitudes and longitudes of its points. "
    "Dask-backed input gives the same values as in-memory input, and integer input is not truncated.",
    ["inputs"],
    "all shapes, dimension orders, dtypes, chunkings, numbers of variables and output grids",
    "A few fixed datasets are compared with stored references.",
    ["data/xarray.py"],
    [
        ("slice-wise application", "data/xarray.py:XarrayDataHandler.regrid"),
        ("output coordinates", "data/xarray.py:XarrrayGeographyBuilder.coords"),
        ("input dimensions", "data/xarray.py:xr_geo_dims"),
    ],
    "exploration",
    "differential runtime oracle: slice-wise array regrid, coordinates against MIR's points, dask against eager",
    "Held on the generated objects.",
    ["earthkit.regrid.regrid()"],
)

prop(
    "C12",
    "Inputs are never modified and results are independent of internal state",
    "No regrid changes the field, the gridspecs, the options, the xarray object or the fieldlist it is given, also when it fails. "
    "Modifying a result, or the arguments after the call, never changes the outcome of another or a later call.",
    ["inputs", "histories"],
    "all entry points, kinds of input and backends",
    "No test looks at the inputs after a call or modifies results.",
    ["gridspec.py", "backends/precomputed.py", "backends/mir.py", "data/xarray.py", "data/fieldlist.py"],
    [
        ("copies of gridspecs", "gridspec.py:GridSpec.from_dict"),
        ("copies of options", "backends/mir.py:MirBackend.adjust_options"),
    ],
    "exploration",
    "runtime immutability monitor: deep fingerprints of all arguments before and after each call, poisoned results between repeated calls",
    "Held on the generated calls.",
    ["earthkit.regrid.regrid()", "earthkit.regrid.array.regrid()", "earthkit.regrid.interpolate()"],
)

prop(
    "C13",
    "The deprecated interpolate() agrees with regrid()",
    "interpolate() of an array returns the values that regrid() returns with the precomputed backend for the same inventory, grids and method, and of a fieldlist the same fields; "
    "it refuses what regrid() refuses.",
    ["inputs"],
    "all inventories, grid pairs, methods and fields",
    "Both interfaces are tested separately on a few cases.",
    ["data_interpolate.py", "interpolate.py", "backends/precomputed.py"],
    [
        ("array path", "data_interpolate.py:NumpyDataHandler.interpolate"),
        ("fieldlist path", "data_interpolate.py:FieldListDataHandler.interpolate"),
    ],
    "exploration",
    "differential runtime oracle between the two interfaces and the reference product",
    "Held on the generated calls.",
    ["earthkit.regrid.interpolate()"],
)

prop(
    "C14",
    "A cached file is created once and always complete, across threads and processes",
    "However many threads and processes ask for the same cached file at the same time, it is created exactly once, every one of them gets the same path, and the file at that path always has the "
    "complete content belonging to the request, never that of another request or a part. "
    "Requests that differ in owner, arguments or extension get different files.",
    ["schedules", "inputs"],
    "all interleavings of requests from threads and processes sharing a cache directory, all request arguments",
    "The tests create cached files from a single thread.",
    ["utils/caching.py"],
    [
        ("lock and rename", "utils/caching.py:cache_file"),
        ("file name", "utils/caching.py:cache_file"),
        ("serialised database access", "utils/caching.py:CacheManager.run"),
    ],
    "exploration",
    "multi-process and multi-thread stress with injected delays; exactly-once monitor over the creation event log, content oracle by unique payload per request",
    "Held on the interleavings that were executed.",
    ["earthkit.regrid.utils.caching.cache_file()"],
)

prop(
    "C15",
    "A failed or killed creation never leaves a partial cached file",
    "Whenever the creation of a cached file fails, by an error or because the process is killed at any point, no file appears under its final name unless it is complete, and the next request creates it, "
    "in the same or in another process. "
    "A failed creation is reported to the caller, and leaves neither an entry that blocks eviction nor a lock that blocks later requests.",
    ["crash_points", "fault_sequences"],
    "all points at which a creating process can fail or die, followed by new requests",
    "No test kills a process or fails a creation.",
    ["utils/caching.py", "utils/download.py"],
    [
        ("creation in a temporary file and rename", "utils/caching.py:cache_file"),
        ("entry removal on failure", "utils/caching.py:cache_file"),
    ],
    "fault_enumeration",
    "crash-point enumeration: processes are killed at every executed source line of the creation, then a fresh process checks the invariants; exception injection",
    "Process death is simulated by immediate exit, not loss of power.",
    ["cache directory", "earthkit.regrid.utils.caching.cache_file()"],
)

prop(
    "C16",
    "The disk cache respects its size limit, evicting least recently used entries",
    "After a new entry or a configuration change the total size of the disk cache is brought within maximum-cache-size, and the usage of its disk within maximum-cache-disk-usage, by evicting the least recently used entries first and no more than needed, "
    "while the most recent entry is never evicted. "
    "An evicted file is created again when requested, and a cache without limit evicts nothing.",
    ["histories", "configurations"],
    "all sequences of creations, accesses and limit changes, all sizes",
    "One test checks a limit with files of equal size.",
    ["utils/caching.py"],
    [
        ("size check", "utils/caching.py:CacheManager._check_cache_size"),
        ("eviction", "utils/caching.py:CacheManager._decache"),
        ("protection of recent entries", "utils/caching.py:CacheManager._latest_date"),
    ],
    "exploration",
    "runtime monitor: the files and entries present after each operation against an executable LRU model",
    "Held on the generated histories; the disk usage limit depends on the file system and is driven with a stand-in of the usage.",
    ["cache directory", "earthkit.regrid.cache"],
)

prop(
    "C17",
    "The disk cache accounts for its files exactly and touches nothing else",
    "At rest the entries reported by the cache are exactly the files it created and did not remove, with their sizes, owners, arguments and number of accesses, and the reported total is their sum. "
    "purge() deletes all of the entries, or exactly those that the matcher selects, together with their files. "
    "No operation of the cache deletes or changes a file outside of the cache directory.",
    ["histories"],
    "all sequences of creations, requests, purges with matchers, external deletions and directory changes",
    "The tests look at the number of entries after one or two operations.",
    ["utils/caching.py"],
    [
        ("registration", "utils/caching.py:CacheManager._register_cache_file"),
        ("update", "utils/caching.py:CacheManager._update_entry"),
        ("purge", "utils/caching.py:CacheManager._purge_cache"),
        ("containment", "utils/caching.py:CacheManager._ensure_in_cache"),
    ],
    "exploration",
    "runtime monitor: reported entries against a model and against the directory after each operation; audit-hook monitor of deletions and writes",
    "Held on the generated histories.",
    ["earthkit.regrid.cache", "os.remove, rename and open events"],
)

prop(
    "C18",
    "Cache policy and directory follow the configuration",
    "At any time cached files are created in the directory that the configuration in force designates: the user directory, a private directory for the temporary policy, or an unmanaged one when off, also when the path is relative and the current directory changes later. "
    "Changing the policy or directory, also temporarily, takes effect at once, leaves the files of a user directory in place, where they are found again when it is restored, and temporary directories are unique and deleted when no longer used. "
    "With the policy off nothing is kept: every request creates its file again.",
    ["histories", "configurations"],
    "all sequences of policy and directory changes, permanent and temporary, interleaved with requests",
    "The tests switch the policy once or twice.",
    ["utils/caching.py", "utils/temporary.py", "utils/config.py"],
    [
        ("policies", "utils/caching.py:CachePolicy"),
        ("reaction to changes", "utils/caching.py:Cache._config_changed"),
    ],
    "exploration",
    "runtime monitor: directory, policy and files after each step of random configuration histories against a model",
    "Held on the generated histories.",
    ["earthkit.regrid.cache", "file system"],
)

prop(
    "C19",
    "Configuration values resolve by precedence and invalid changes are rejected",
    "Getting an option returns the value of its environment variable if set, else the value last set, else its default, interpreted in the type and units of the option (sizes, percentages, times, booleans). "
    "Setting an unknown option or an invalid value raises an error and leaves all options, also those of the same call, observers and the configuration file unchanged. "
    "reset() restores the default of one option or of all.",
    ["inputs", "histories", "configurations"],
    "all options, values, units, environments and sequences of operations",
    "The tests set a few valid values and a few invalid ones.",
    ["utils/config.py", "utils/humanize.py"],
    [
        ("precedence", "utils/config.py:Config.get"),
        ("validation", "utils/config.py:Config._set"),
        ("units", "utils/humanize.py:as_number"),
        ("all or nothing", "utils/config.py:Config.set"),
    ],
    "exploration",
    "runtime monitor: every read of random histories against an executable model of the configuration",
    "Held on the generated histories.",
    ["earthkit.regrid.config"],
)

prop(
    "C20",
    "Temporary configurations are scoped and observers stay in sync",
    "Within a temporary configuration its values are in force, changes made inside it are gone when it ends, normally or by an exception, at any nesting depth, and the previous configuration, memory cache and disk cache settings are restored. "
    "Changes inside it are not written to the configuration file. "
    "Observers are notified of every effective change, and never see a value that was rejected remain in force.",
    ["histories", "configurations"],
    "all nestings of temporary configurations with changes, resets and exceptions inside",
    "One or two levels with fixed values are tested.",
    ["utils/config.py", "utils/memcache.py", "utils/caching.py"],
    [
        ("stack of configurations", "utils/config.py:new_config"),
        ("forwarding", "utils/config.py:forward"),
        ("notification", "utils/config.py:Config._changed"),
    ],
    "exploration",
    "runtime monitor: random nested histories against a stack model; observer log, memory cache and disk cache state checked after each step",
    "Held on the generated histories.",
    ["earthkit.regrid.config", "earthkit.regrid.memory_cache_info()", "earthkit.regrid.cache"],
)

prop(
    "C21",
    "Saved configurations load back and the file is never left damaged",
    "A configuration saved explicitly or automatically is loaded back by a new process with the same value for every option, and values read from the file are those a user wrote. "
    "A process killed or failing while saving leaves the previous or the new complete file, and so do several processes that save at the same time. "
    "The same holds when the path of the file is relative and the current directory changes, and loading changes nothing else of the process. "
    "With automatic saving disabled the file is not written, and a missing, empty or unreadable file gives the defaults.",
    ["inputs", "crash_points", "histories"],
    "all configurations, all points where the saving process can die, all file contents",
    "The tests save one option and read it in the same process.",
    ["utils/config.py"],
    [
        ("writing", "utils/config.py:save_config"),
        ("loading", "utils/config.py:_init_config"),
        ("automatic saving", "utils/config.py:Config._changed"),
    ],
    "fault_enumeration",
    "round trips through fresh processes against a model; crash-point enumeration over every source line executed while saving",
    "Process death is simulated by immediate exit.",
    ["configuration file"],
)

prop(
    "C22",
    "A remote inventory is used up to date and downloaded only once",
    "Weights published in a remote inventory after its index was cached are found by the first regrid of a process that needs something the cached index lacks, also when threads and processes need them at the same time, and the index is then "
    "downloaded again exactly when its published checksum differs. While the cache holds them, an index and a weight file are downloaded once, by any number of regrids, threads and processes, and the results are those of the "
    "same inventory read locally, even when the server is down. Weights that the cached index lists are used without asking for a newer index, and a cached file that was replaced on the server is downloaded again only if so configured.",
    ["histories"],
    "all sequences of regrids, publications on the server, restarts and cache purges",
    "The tests against the remote inventory need the network and follow a single fixed sequence.",
    ["backends/db.py", "utils/download.py", "utils/caching.py"],
    [
        ("checksum comparison", "backends/db.py:UrlAccessor._get_index"),
        ("check when weights are missing", "backends/db.py:MatrixDb.find_entry"),
        ("download", "utils/download.py:download_and_cache"),
    ],
    "exploration",
    "request log of a local server against a model of the permitted requests; results against the reference product",
    "Held on the generated histories.",
    ["HTTP requests", "earthkit.regrid.array.regrid()"],
)

prop(
    "C23",
    "Download faults never give wrong results and are recovered from",
    "When the index, its checksum or weight files cannot be downloaded or arrive damaged or truncated, the regrid raises an error or returns the correct result after retrying, never a wrong one. "
    "No incomplete index or weights stay in the cache, and when the server works again the same call succeeds in the same process, also when an interrupted transfer is continued, the file was replaced meanwhile, or threads and processes share the faults.",
    ["fault_sequences"],
    "all sequences of connection, HTTP, truncation and content faults over the files of an inventory",
    "No test makes a download fail.",
    ["utils/download.py", "backends/db.py", "utils/caching.py"],
    [
        ("retries", "utils/download.py:download_and_cache"),
        ("publication of the index", "backends/db.py:MatrixDb._load_index"),
        ("removal of failed files", "utils/caching.py:cache_file"),
    ],
    "exploration",
    "fault-injecting local server; result oracle, cache directory and recovery monitors",
    "Held on the generated fault sequences; damage that an index checksum or the file format cannot reveal is out of scope.",
    ["HTTP requests", "cache directory"],
)

prop(
    "C24",
    "An inventory index loads entirely, and its subsets and merges are faithful",
    "All the entries of an index that describe supported grids are usable whatever unsupported entries surround them, and an index of another version is refused. "
    "A subset of an inventory holds exactly the entries asked for, or fails if one is missing, and the inventory written from it gives the same results as the original; "
    "existing files are not overwritten unless allowed and a dry run writes nothing. "
    "An index merged from new weights and the published ones holds every entry of both, and when one of the two is missing or damaged nothing is written. "
    "A copy, subset or merge that fails while it writes (a full disk) leaves no incomplete file in place of one that was there.",
    ["inputs", "fault_sequences"],
    "all indexes with supported and unsupported entries, all selections, all pairs of indexes",
    "One unsupported entry and no subsetting are tested.",
    ["backends/db.py", "tools/subset/subset_remote_db.py", "tools/manage/merge_index.py"],
    [
        ("loading", "backends/db.py:MatrixIndex.load"),
        ("subset", "backends/db.py:MatrixIndex.subset"),
        ("copy", "backends/db.py:MatrixDb.copy_matrix_file"),
        ("tool", "tools/subset/subset_remote_db.py:subset_remote_db"),
        ("merge", "tools/manage/merge_index.py:merge"),
    ],
    "exploration",
    "differential runtime oracle: results of the subset inventory against the original, index against the written entries, file monitors",
    "Held on the generated inventories.",
    ["earthkit.regrid.array.regrid()", "inventory directories"],
)

prop(
    "C25",
    "Weights from MIR are converted exactly and inventories built from them work",
    "Converting a weight file written by MIR gives exactly the sparse matrix it encodes, for either byte order and any supported index and value sizes, in memory and in the written file; a truncated file, or one whose sizes and indices are not consistent, is refused. "
    "Adding converted weights to an inventory makes them available to regrid() for the described grids, keeps the entries already there, and records their size, and weights of different interpolation settings never overwrite each other. "
    "An addition that fails (a bad description, bad weights, a full disk) leaves the inventory as it was.",
    ["inputs", "histories", "fault_sequences"],
    "all matrices, encodings, descriptions and sequences of additions, any write that fails",
    "The conversion tests are disabled.",
    ["utils/mir.py", "utils/stream.py", "utils/builder.py", "backends/db.py"],
    [
        ("decoding", "utils/mir.py:mir_cached_matrix_to_array"),
        ("stream", "utils/stream.py:Stream"),
        ("index entry", "utils/builder.py:make_matrix"),
    ],
    "exploration",
    "round-trip runtime oracle with an independent encoder, weight files written by MIR itself, truncation at every offset",
    "Held on the generated matrices.",
    ["earthkit.regrid.utils.mir", "earthkit.regrid.utils.builder"],
)

prop(
    "C26",
    "Weights made from point coordinates belong to exactly those points",
    "A grid definition written from latitudes and longitudes holds exactly these coordinates in order, and is never reused for other coordinates. "
    "Weights made by MIR for given grids or points reproduce, applied to a field, what MIR computes for them directly. "
    "Inconsistent or missing coordinates or grids are refused.",
    ["inputs", "histories"],
    "all coordinate lists, including long and nearly equal ones, all sequences of calls sharing the grid definition cache",
    "The tests of this function are disabled.",
    ["utils/mir.py", "utils/stream.py"],
    [
        ("grid definition file", "utils/mir.py:mir_write_latlon_to_griddef"),
        ("name of the file", "utils/mir.py:_griddef_from_latlon"),
        ("weights", "utils/mir.py:mir_make_matrix"),
    ],
    "exploration",
    "independent decoder of the grid definition, differential oracle against MIR driven directly",
    "Held on the generated coordinates.",
    ["earthkit.regrid.utils.mir"],
)

prop(
    "C27",
    "Repeated use accumulates no resources",
    "However often regrids, failing calls, cached files, downloads, configuration changes, threads or forked processes are repeated in a process, "
    "the number of its open files, threads, child processes and temporary files, the weights that stay in memory beyond those the in-memory cache "
    "reports, and its memory do not keep growing.",
    ["histories", "fault_sequences"],
    "all histories of operations, successful or not, of any length",
    "The tests call each operation a few times and measure no resource.",
    ["utils/temporary.py", "utils/memcache.py", "utils/caching.py", "utils/config.py", "backends/db.py", "backends/mir.py", "data/"],
    [
        ("temporary files and directories", "utils/temporary.py:TmpFile.cleanup"),
        ("weights in memory", "utils/memcache.py:MemoryCache._reduce"),
        ("connections and threads of the disk cache", "utils/caching.py:CacheManager"),
        ("scopes and observers", "utils/config.py:Config.temporary"),
    ],
    "exploration",
    "leak monitor: resources of a process measured at the beginning, middle and end of random mixtures of repeated operations",
    "Held on the repeated histories; a leak smaller than the measurements vary by is not seen.",
    ["earthkit.regrid"],
)


prop(
    "C28",
    "Simultaneous regrids of any kind of input do not affect one another",
    "Calls of regrid() and interpolate() made at the same time - on arrays, GRIB messages, fields, fieldlists and eager or lazy xarray objects, with "
    "either backend, by threads, by forked processes or by the schedulers of dask in threads and other processes - give bit for bit the results, or the "
    "errors, that each of them gives alone, and all of them end.",
    ["schedules", "inputs"],
    "all sets of calls, all interleavings of their threads and processes, all states of the in-memory cache",
    "The tests make one call at a time, but for array regrids of one inventory in threads.",
    ["data/", "backends/mir.py", "backends/precomputed.py", "backends/__init__.py", "array/regrid.py", "data_interpolate.py"],
    [
        ("handler of a call", "data/__init__.py:get_data_handler"),
        ("MIR job of a call", "backends/mir.py:MirBackend.regrid_grib"),
        ("weights of a call", "backends/precomputed.py:MatrixBackend.regrid"),
        ("lazy objects", "data/xarray.py:XarrayDataHandler.regrid"),
    ],
    "exploration",
    "stress with delays injected at source lines, preemption at each line of a call, dask schedulers and forked processes; bit-for-bit comparison with the calls alone",
    "Held on the interleavings produced; MIR keeps the interpreter lock, so its code is not interleaved with itself.",
    ["earthkit.regrid.regrid()", "earthkit.regrid.interpolate()"],
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["prop"]["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            checks.append(
                dict(
                    property=pid,
                    quick_cmd=f"python3 run.py {pid} quick",
                    thorough_cmd=f"python3 run.py {pid} thorough",
                    technique=p["technique"],
                    level=p["level"],
                    level_note=p["note"],
                )
            )
        else:
            na.append(dict(property=pid, reason="its check is not built yet"))
    m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]


if __name__ == "__main__":
    main()
