#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; `python3 spec/gen_properties.py` rewrites it)."""
import json, os
SRC = "crates/symbolicator-sources/src/"
SYM = "crates/symsorter/src/"
WAS = "crates/wasm-split/src/main.rs"
SVC = "crates/symbolicator-service/src/"
NAT = "crates/symbolicator-native/src/"
JS = "crates/symbolicator-js/src/"
PRO = "crates/symbolicator-proguard/src/"
APP = "crates/symbolicator/src/"

P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {})},
    })

# ------------------------------------------------------------------ sources
p("S01", "Lookup paths follow the published schema of every symbol server layout",
  "For every server layout, file type and object identity, the paths looked up on a source are exactly the ones the published schema of that layout prescribes: directory structure, identifier (code id, debug id or UUID), casing and suffix. A file type the layout does not support, or an object that lacks the identifier or file name the schema needs, yields no path at all rather than a wrong one.",
  ["inputs", "configurations"], "all 7 layouts x 15 file types x 6 object types x every presence/absence and every value of code id, code file, debug id and debug file",
  "The tests check one Windows, one Mach-O, one ELF and one WASM object per layout; most of the 630 layout/type/object combinations and all missing-identifier and short-identifier cases are never evaluated.",
  [SRC+"paths.rs", "docs/advanced/symbol-server-compatibility.md"],
  [("get_directory_paths and the per-layout path builders", SRC+"paths.rs"), ("layout and casing types", SRC+"sources.rs"), ("validated basenames", SRC+"types.rs")],
  ["list of paths requested from the source"])
p("S02", "Forced casing and compressed variants apply to the right paths, in order",
  "A source configured with upper- or lowercase file names has every looked-up path converted to that case as a whole, whatever its layout. For PDB and PE lookups, and only for those, each path has one compressed variant in which just the last character is replaced by an underscore, and the plain path is always tried before its compressed variant.",
  ["inputs", "configurations"], "all layouts, casings, file types and object identities",
  "Only a handful of default-cased PDB/PE paths are sampled; no test covers forced casing together with the compressed variant, or the order in which a source tries them.",
  [SRC+"paths.rs", SRC+"remotefile.rs"],
  [("casing and compressed variants", SRC+"paths.rs: get_directory_paths"), ("order in which locations are tried", SRC+"remotefile.rs: SourceLocationIter::next")])
p("S03", "A source is only asked for files its filters admit",
  "A location is requested from a source only if the file type is in the source's type list (an empty list admits all), the object's path matches one of its path patterns (an empty list admits all), and, when the source requires a checksum, the object carries one. Conversely, every location of every requested file type that passes these filters and the source's index is tried.",
  ["inputs", "configurations"], "every source filter configuration, file type list, index content and object identity",
  "The filter tests sample a few patterns and types; the combination of the three filters with the index and with several requested types is not exercised.",
  [SRC+"sources.rs", SRC+"remotefile.rs", SRC+"paths.rs"],
  [("filter decision", SRC+"sources.rs: SourceFilters::is_allowed"), ("location enumeration", SRC+"remotefile.rs: SourceLocationIter")])
p("S04", "Path patterns ignore case and slash direction and look at both file paths",
  "A path pattern matches an object if it matches the object's code file path or its debug file path, ignoring ASCII case, treating backslashes as slashes, and letting wildcards cross directory separators and leading dots. An object without any path matches no pattern.",
  ["inputs", "configurations"], "all patterns and all code/debug file paths, including absent ones",
  "Tests use three patterns over a few Windows paths and never a code-file-only or a debug-file-only match on another platform.",
  [SRC+"paths.rs"], [("matches_path_patterns, GLOB_OPTIONS", SRC+"paths.rs")])
p("S05", "Symbol proxy request paths resolve to the object they name",
  "A symbol-server style request path of the form name/identifier/name resolves to the file type and object identity that the symbol server layout would have stored at that path; a path with a different shape, with first and last names that differ by more than their case, or with an unparsable debug identifier resolves to nothing.",
  ["inputs"], "every request path",
  "One test covers one path per file type; near-miss names, casing of the identifier prefix, and malformed identifiers are not covered.",
  [SRC+"paths.rs"], [("parse_symstore_path", SRC+"paths.rs"), ("proxy endpoint", APP+"endpoints/proxy.rs")])
p("S06", "A source index is complete, loss-free and authoritative",
  "Every well-formed entry of a symbol server's index files ends up in the index under the path name/id/name, invalid lines are skipped without losing later ones, read errors are reported, appending or re-saving and re-loading an index loses and invents nothing. When a source has an index, exactly the candidate paths contained in it are requested.",
  ["inputs", "histories"], "all index file contents, all append/save/load sequences",
  "Unit tests only parse single lines; no test combines invalid lines, appends and a save/load round trip, or checks that the index gates lookups.",
  [SRC+"index.rs", SRC+"remotefile.rs"],
  [("SymstoreIndex parse/load/write/append/insert/contains", SRC+"index.rs"), ("index gating", SRC+"remotefile.rs: SourceLocationIter::next")])
p("S07", "Remote files keep their identity: distinct files have distinct keys and URLs",
  "The cache key of a remote file contains its source id and its full location (for Sentry, the file id plus a marker that other source types do not use), so two different files of a source never share a key. Its download address is the source's configured base (directory, bucket prefix or URL) extended by exactly its location, with empty segments collapsed for URLs and surrounding slashes trimmed from bucket prefixes.",
  ["inputs", "configurations"], "all source configurations and locations",
  "Tests check a few sample URIs and URLs; keys and the S3/GCS prefix handling of unusual prefixes are not compared across sources.",
  [SRC+"remotefile.rs", SRC+"sources/filesystem.rs", SRC+"sources/gcs.rs", SRC+"sources/http.rs", SRC+"sources/s3.rs", SRC+"sources/sentry.rs"],
  [("RemoteFile::cache_key, uri, source_id", SRC+"remotefile.rs"), ("SourceLocation::prefix, to_url, segments", SRC+"remotefile.rs"), ("per source key/url/path", SRC+"sources/")])
p("S08", "File names from reports cannot produce unsafe lookup paths",
  "A file name taken from a crash report enters a lookup path only as its last path component, and only if it is shorter than 256 bytes, has no control characters and is not empty or a current/parent directory reference; otherwise no path that needs that name is produced.",
  ["inputs"], "every code file and debug file string a report can contain",
  "The test for valid names samples five strings; which lookups use the validated name is not tested at all.",
  [SRC+"types.rs", SRC+"paths.rs", SRC+"sources/filesystem.rs"],
  [("valid_file_name", SRC+"types.rs"), ("use of validated basenames", SRC+"paths.rs")])
p("S09", "Files are only shareable if their source was declared public",
  "A remote file counts as public exactly when its source is configured as public; files of Sentry sources never do, and a source whose configuration does not mention visibility is private. Every remote file may be kept in the shared cache except files of built-in Google Cloud sources.",
  ["configurations"], "every source type and configuration",
  "No test covers the visibility of each source type or the defaults used when the setting is absent.",
  [SRC+"remotefile.rs", SRC+"sources.rs"],
  [("RemoteFile::is_public, worth_using_shared_cache, is_builtin", SRC+"remotefile.rs"), ("CommonSourceConfig defaults", SRC+"sources.rs")])
p("S10", "Omitted source settings take the documented, safe defaults",
  "In a source configuration every optional setting may be left out and then means: native layout with default casing, no file type or path filters, no checksum required, not public, no index, no bucket prefix, no extra headers, certificate validation on, static credentials with empty keys. The required identity, address and credential settings have no default, and the type, layout, casing and file type names accepted are the documented ones.",
  ["configurations"], "every subset of settings left out of a source configuration",
  "Tests deserialize a handful of complete configurations; the default of each omitted setting and each accepted name is not covered.",
  [SRC+"sources.rs", SRC+"sources/gcs.rs", SRC+"sources/http.rs", SRC+"sources/s3.rs", SRC+"sources/sentry.rs", SRC+"sources/filesystem.rs", SRC+"filetype.rs"],
  [("serde attributes and Default impls of the configuration types", SRC+"sources/")])
p("S11", "Object and file type names are stable, total and agree in both directions",
  "Every object type and file type has one distinct textual name, the name written is the one read back, and file types use the same name in configurations and in logs and metrics. An object type name that is not known is read as the unknown type and never rejected.",
  ["inputs"], "all type names and all input strings",
  "No test round-trips all names through the separate parse, display, serialize and deserialize implementations.",
  [SRC+"types.rs", SRC+"filetype.rs"],
  [("FromStr, Display, serde of object types", SRC+"types.rs"), ("serde and AsRef of file types", SRC+"filetype.rs")])
p("S12", "Identifying or printing a remote file never reveals credentials",
  "The cache key, URI, host, display text and metric key of any remote file, and the debug text of a Sentry file, contain no token, private key, secret key, access key or configured header value.",
  ["configurations", "inputs"], "every source configuration and file",
  "Tests never look for secrets in any of these strings.",
  [SRC+"remotefile.rs", SRC+"sources/sentry.rs", SRC+"sources/http.rs", SRC+"sources/s3.rs", SRC+"sources/gcs.rs"],
  [("Display/uri/host/cache_key/Debug implementations", SRC)])
p("S13", "Every object type is searched through all file types that can describe it",
  "Looking up an ELF, Mach-O or PE object tries its own code file type first and then Breakpad, Mach-O, PDB and ELF debug files; WASM tries its code and debug types; .NET tries portable PDBs; an unknown type tries every object file type. Source lookups try source bundles, portable PDBs, ELF and WASM debug files; no list is empty or contains duplicates.",
  ["inputs"], "all object types",
  "No test asserts the complete candidate type lists.",
  [SRC+"filetype.rs"], [("FileType::from_object_type, all, sources", SRC+"filetype.rs")])
p("S14", "Cloud credentials are never mixed up between sources",
  "Two bucket configurations are treated as the same account (and may therefore share a cached client or access token) only if every field that selects or authenticates the account is equal: region including a custom endpoint, credentials provider, access key and secret key for S3; key and client email for Google Cloud; and equal configurations always hash equally.",
  ["configurations"], "all pairs of bucket credentials",
  "No test compares credentials that differ in a single field.",
  [SRC+"sources/s3.rs", SRC+"sources/gcs.rs", SVC+"download/s3.rs", SVC+"download/gcs.rs"],
  [("PartialEq/Hash of S3SourceKey, S3Region, GcsSourceKey", SRC+"sources/"), ("client and token caches keyed on them", SVC+"download/")])
p("S15", "Sentry files are fetched from the right URL with the right credential flag",
  "A Sentry file without an explicit URL is downloaded from the source's own URL with its id appended as query parameter; with an explicit URL exactly that URL is used. Whether the source's token may be attached is exactly what the creator of the file asked for.",
  ["inputs", "configurations"], "all Sentry sources, file ids and explicit URLs",
  "Unit tests of the sources crate do not construct Sentry files with both variants.",
  [SRC+"sources/sentry.rs"], [("SentryRemoteFile::new, url, use_credentials", SRC+"sources/sentry.rs")])

p("S16", "A remote file tells its address, host and source as documented",
  "The address shown for a remote file is the URL it is downloaded from, the s3:// or gs:// address of its bucket and object key, the file:// path it is read from, or the sentry:// address of its id. Its host is the host of the URL, the bucket, the URL asked at Sentry, or a placeholder for local files. Its source is reported by id if built in, and by its type otherwise, and a source is built in exactly if its id starts with sentry:. A file made from a bare URL is loaded from exactly that URL, without headers, not shared, and with certificates checked exactly if requested.",
  ["inputs", "configurations"], "all sources of all types, locations, prefixes and ids",
  "Unit tests build one or two addresses; blocking, reporting and candidate lists rely on all of them.",
  [SRC+"remotefile.rs", SRC+"sources/http.rs", SRC+"sources/gcs.rs", SRC+"sources/s3.rs", SRC+"sources/sentry.rs", SRC+"sources/filesystem.rs", SRC+"sources.rs"],
  [("RemoteFile::uri, host, source_metric_key, is_builtin, source_id", SRC+"remotefile.rs"), ("HttpRemoteFile::from_url", SRC+"sources/http.rs"), ("SourceConfig::id, type_name", SRC+"sources.rs")])

# ------------------------------------------------------------------ symsorter
p("Y01", "Sorted files land where the unified symbol source layout looks for them",
  "Every object that is sorted is written to first-two-characters/rest/kind under the output (plus prefix), where the id is the lowercase debug id for PE files and for objects without code id and the code id otherwise, and the kind is debuginfo for debug files, executable for executables and libraries, and sourcebundle for source bundles. This is the path at which a unified-layout source looks the same object up, provided it carries the identifier that layout requires.",
  ["inputs"], "all object formats, kinds and identifiers",
  "symsorter has no tests at all; the lookup side is tested separately with hand-written expectations.",
  [SYM+"utils.rs", SYM+"app.rs", SRC+"paths.rs"],
  [("get_unified_id, get_target_filename", SYM+"utils.rs"), ("process_file", SYM+"app.rs"), ("get_unified_path", SRC+"paths.rs")])
p("Y02", "Sorting never overwrites or relabels an already sorted file",
  "If the destination of an object already exists, its contents and its metadata stay untouched and the object is skipped with a warning; the remaining objects of the same input file are still sorted.",
  ["histories", "inputs"], "all sequences of inputs, including repeated runs and fat archives with duplicates",
  "symsorter has no tests.",
  [SYM+"app.rs"], [("exclusive creation in process_file", SYM+"app.rs")])
p("Y03", "Bundle manifests and totals report exactly the files that were sorted",
  "The identifiers listed in a bundle's manifest, and the totals printed at the end, are those of all objects sorted in that run: from plain files, from zip archives and from generated source bundles, each exactly once; every sorted object of a bundle also gets a reference to that bundle and a metadata file next to it.",
  ["inputs", "schedules"], "all input trees and all parallel processing orders",
  "symsorter has no tests.",
  [SYM+"app.rs"], [("sort_files, process_zip_archive, process_file, execute", SYM+"app.rs")])
p("Y04", "Broken inputs stop sorting unless errors are ignored, and never stop it then",
  "Without the ignore-errors option, a file that looks like an object or archive but turns out to be broken (a broken object, identifier or zip member) makes the whole run fail with a non-zero exit status; files that cannot be opened or are neither are skipped; with it, the problem is reported and sorting continues with the other files. Failures to write the output are never ignored for plain files.",
  ["fault_sequences", "inputs"], "all inputs and all I/O failures",
  "symsorter has no tests.",
  [SYM+"app.rs"], [("maybe_ignore_error, process_zip_archive, main", SYM+"app.rs")])
p("Y05", "Bundle ids are safe file names",
  "A bundle id that is accepted from the command line or derived from a folder name consists only of ASCII letters, digits, dots, commas, dashes and single inner underscores, with runs of other characters replaced by one underscore and outer underscores removed; an explicit id that would be changed by this cleaning is rejected before anything is sorted.",
  ["inputs"], "all bundle ids and folder names",
  "symsorter has no tests.",
  [SYM+"utils.rs", SYM+"app.rs"], [("make_bundle_id, is_bundle_id, BAD_CHARS_RE", SYM+"utils.rs"), ("execute", SYM+"app.rs")])
p("Y06", "Sorted contents are the object's bytes, compressed exactly when requested",
  "The contents of a sorted file are the object's own bytes, stored raw when no compression was requested and otherwise as a zstd stream at level 3, 10, 19 or 22 for one, two, three or more compression flags.",
  ["inputs", "configurations"], "all objects and compression settings",
  "symsorter has no tests.",
  [SYM+"app.rs"], [("compression level table and copy in process_file", SYM+"app.rs")])
p("Y07", "Generated source bundles contain the right sources for the right object",
  "With source creation enabled, a bundle is generated for every debug file sorted from a plain file (not from a zip archive) whose id has no source bundle among the plain inputs, from the object in the file that has this id, and never otherwise. Precompiled headers, sources already embedded in the object and sources larger than 10 MB are left out, all others are included.",
  ["inputs", "schedules"], "all input sets, object ids and source files",
  "symsorter has no tests.",
  [SYM+"app.rs", SYM+"utils.rs"], [("source candidates in sort_files", SYM+"app.rs"), ("create_source_bundle, filter_bad_sources", SYM+"utils.rs")])

# ------------------------------------------------------------------ wasm-split
p("W01", "A WASM module keeps its build id, or gets exactly one",
  "A module that already has a build id keeps it unchanged and gets no second one; otherwise exactly one is added, taken from the command line if given there and random otherwise. The id printed (as hex, unless quiet) is the id contained in the main file and in the debug file.",
  ["inputs", "configurations"], "all modules and option combinations",
  "wasm-split has no tests.",
  [WAS], [("build id lookup and insertion", WAS+": main")])
p("W02", "Stripping removes only debug sections, and names only on request",
  "Stripping removes from the main file exactly the custom sections whose name starts with .debug_ and, only if name stripping is requested too, the name section; without the strip option nothing is removed. Every other section keeps its content and relative order.",
  ["inputs", "configurations"], "all modules and option combinations",
  "wasm-split has no tests.",
  [WAS], [("is_strippable_section and retain", WAS)])
p("W03", "The debug companion is the complete, unstripped module",
  "If a debug output is requested, the file written there contains every section of the original module plus the build id, and is not affected by stripping or by the external debug reference.",
  ["inputs", "configurations"], "all modules and option combinations",
  "wasm-split has no tests.",
  [WAS], [("debug output is encoded before stripping", WAS+": main")])
p("W04", "The main file is written when needed, to the right place, with its reference",
  "The main module is written to the requested output, or in place if none is given, whenever an output was requested or the module changed, and not otherwise. One external debug reference is added to it if a URL or a debug output is given: the URL if given, else the file name of the debug output.",
  ["inputs", "configurations"], "all option combinations",
  "wasm-split has no tests.",
  [WAS], [("should_write_main_module, resolved_external_dwarf_url", WAS+": main")])
p("W05", "wasm-split reports failed reads and writes instead of succeeding",
  "If the input cannot be opened or decoded, or any byte of an output file cannot be written, the tool exits with an error; it never reports success while an output is incomplete.",
  ["fault_sequences"], "all I/O failures at every point",
  "wasm-split has no tests; no test injects write errors.",
  [WAS], [("error propagation and buffered writers", WAS+": main")])

# ------------------------------------------------------------------ caching
p("C01", "Cached results and cached errors are read back as what they were",
  "A cache file that records an error is read back as the same kind of error with the same message (up to its first NUL character), an empty file as not found, and any other content as the original data; no two kinds of error share a marker and no marker is a prefix of another one.",
  ["inputs"], "all error kinds, messages and cache file contents",
  "Tests write and read a few errors; messages with unusual content and the pairwise disjointness of markers are not covered.",
  [SVC+"caching/cache_error.rs", SVC+"caching/memory.rs"],
  [("markers, write, from_bytes, cache_contents_from_bytes", SVC+"caching/cache_error.rs")])
p("C02", "Internal failures are never remembered on disk",
  "An internal error or a failure to even attempt a computation leaves no cache entry on disk; every other outcome of a computation is recorded.",
  ["fault_sequences"], "all outcomes of a cache computation",
  "Tests do not enumerate the error kinds against what is persisted.",
  [SVC+"caching/cache_error.rs", SVC+"caching/memory.rs"],
  [("write of errors and persisting in compute", SVC+"caching/memory.rs")])
p("C03", "Cached items expire by their kind, age and use as documented",
  "A successful item lives as long as it was used within the configured unused time; a recorded miss or download failure lives for the configured miss time (public sources have their own), a recorded malformed file for the malformed time but never beyond a restart. An unset limit means the item does not expire by that rule.",
  ["histories", "configurations"], "all item kinds, ages, restarts and configurations",
  "Tests check a few ages with sleeps; the public/private and malformed/restart combinations are only partly covered.",
  [SVC+"caching/fs.rs", SVC+"config.rs"],
  [("expiration strategy and expiry check", SVC+"caching/fs.rs")])
p("C04", "Every cache kind obeys its own configured retention",
  "Each retention setting of each cache kind (unused time, miss time, malformed time, refresh limit) is taken from the configuration of that very kind, and unset options have the documented defaults.",
  ["configurations"], "all cache kinds and settings",
  "Only one kind's settings are read in tests.",
  [SVC+"config.rs", SVC+"caching/mod.rs"],
  [("CacheConfig accessors and Default impls", SVC+"config.rs"), ("construction of caches", SVC+"caching/mod.rs")])
p("C05", "Cache format versions never go backwards and never reuse a number",
  "For every cache kind the current version is newer than all previously used ones, the versions accepted as fallback are among the previous ones, and files of different versions never share a location. A change of the location scheme keeps older versions readable at the location where they were written.",
  ["histories"], "all cache kinds and the whole history of versions",
  "A unit test cannot see that a number was used by an older release; no test enumerates all kinds.",
  [SVC+"caches/versions.rs", SVC+"caching/cache_key.rs"],
  [("*_CACHE_VERSIONS", SVC+"caches/versions.rs"), ("cache_path per version", SVC+"caching/cache_key.rs")])
p("C06", "Cached data is confined to the scope it belongs to",
  "The location of a cached item depends on the scope it was created for and on all inputs that identify it; an item from a private source is stored under the scope of the request, and only items from public sources are stored under the global scope.",
  ["inputs", "configurations"], "all scopes, sources and requests",
  "Tests use one scope at a time; two tenants with equal source ids are only tested for one cache.",
  [SVC+"caching/cache_key.rs", SVC+"objects/mod.rs", NAT+"caches/", PRO+"service.rs"],
  [("CacheKeyBuilder and scope choice at each key construction", SVC+"caching/cache_key.rs")])
p("C07", "Only complete and valid derived files are published to the cache",
  "A derived cache file is handed over for publication only after everything written to it was flushed and, for symbol, portable PDB and source map caches, re-read successfully; any write, flush or sync error fails the computation instead. Downloaded files that only serve as inputs (symbol maps, line mappings, source files, ProGuard mappings, objects) are kept only if they parse, and are remembered as malformed otherwise; an object taken from an archive is the complete member with the requested identifier, and the features stored for an object are those of that object.",
  ["fault_sequences", "crash_points"], "all write failures and crash points while a derived cache is written",
  "No test injects write failures.",
  [NAT+"caches/symcaches.rs", NAT+"caches/cficaches.rs", NAT+"caches/ppdb_caches.rs", JS+"sourcemap_cache.rs", PRO+"service.rs"],
  [("writers of derived caches", NAT+"caches/")])
p("C08", "The shared cache only receives and serves items that opted in",
  "An item is fetched from or stored to the shared cache only if its request allows it; what is stored is the complete, successfully computed local item (never an error marker), and a failed shared cache access is treated as a miss and never fails the request.",
  ["fault_sequences", "configurations"], "all item kinds, outcomes and shared cache failures",
  "Tests cover one filesystem-backed hit and miss.",
  [SVC+"caching/memory.rs", SVC+"caching/shared_cache/"],
  [("shared cache use in compute and lookup_local_cache", SVC+"caching/memory.rs")])
p("C09", "Cleanup deletes only expired cache files, and nothing in a dry run",
  "Cache cleanup removes a file only if it is expired by the rules of its cache, removes a directory only when it is empty or everything in it was removed, and changes nothing at all when run as a simulation. Failing to process one entry never causes unexpired files to be deleted.",
  ["histories", "fault_sequences"], "all cache directory contents and I/O failures",
  "Tests clean a handful of files without failures.",
  [SVC+"caching/cleanup.rs"], [("cleanup_directory_recursive, try_cleanup_path", SVC+"caching/cleanup.rs")])
p("C10", "Derived results distinguish every input they were computed from",
  "The cache key of a derived item covers the primary object and every secondary file (symbol maps, line mappings, source bundles, source maps) that influences its contents, so a result computed with one set of inputs is never returned for another.",
  ["inputs"], "all combinations of primary and secondary files",
  "Tests use one combination per cache.",
  [NAT+"caches/derived.rs", NAT+"caches/symcaches.rs", JS+"sourcemap_cache.rs", JS+"lookup.rs"],
  [("derived cache keys", NAT+"caches/derived.rs")])

# ------------------------------------------------------------------ download
p("C11", "Outdated cache versions are served and refreshed within the limit",
  "An item that only exists in an older accepted version is used right away, the newest accepted version is preferred over older ones, and the item is recomputed in the background at most once at a time and never beyond the configured number of concurrent refreshes of its kind; a recomputation that finishes, fails or is cancelled frees its slot.",
  ["histories", "schedules"], "all sets of versions on disk, limits and outcomes of background computations",
  "Tests use one old version of one item with an unlimited or exhausted limit.",
  [SVC+"caching/memory.rs", SVC+"caching/mod.rs"],
  [("lookup_local_cache, spawn_refresh and lookup_or_compute", SVC+"caching/memory.rs")])
p("C12", "Shared cache uploads are bounded, complete and never replace an item",
  "A store into the shared cache writes the complete item in one step at its own place and only if no item is there yet; what is reported (written, skipped, failed) is what happened. An item is taken to exist only if the server says so. Storing never waits: with a full queue the item is dropped. No more uploads than configured run at once, every queued item is uploaded, and every upload frees its slot and signals completion however it ends. The service only runs if configured and a backend could be started.",
  ["schedules", "fault_sequences"], "all answers, failures, timeouts and arrival orders",
  "Tests store one item per backend, and the GCS ones need credentials.",
  [SVC+"caching/shared_cache/mod.rs"], [("upload_worker, single_uploader, GcsState::store, FilesystemSharedCacheConfig::store", SVC+"caching/shared_cache/mod.rs")])
p("D01", "HTTP answers map to the right kind of result",
  "A successful response yields the file; 401 and 403 and login redirects are reported as missing permission, other client errors as not found, timeouts as timeouts, and all other failures as download errors with the reason of their innermost cause (a fixed one for certificate and TLS failures); none of them is ever reported as success or as not found by mistake.",
  ["inputs", "fault_sequences"], "all response codes and transport failures",
  "Tests cover a few status codes.",
  [SVC+"download/mod.rs"], [("status handling of download responses", SVC+"download/mod.rs")])
p("D02", "Requests cannot reach reserved addresses unless the operator allows it",
  "Unless connections to reserved addresses are enabled, outgoing connections to private, loopback, link-local, documentation, multicast and other reserved IPv4 blocks and to all IPv6 addresses are refused at connection time by every client that contacts sources, whatever their configuration; only the client for Sentry's own API, whose address the operator's Sentry gives, is exempt. They are disabled by default.",
  ["inputs", "configurations"], "all IP addresses and client configurations",
  "A test cannot connect to every address of each block.",
  [SVC+"utils/http.rs", SVC+"config.rs"], [("RESERVED_IP_BLOCKS, is_external_ip, create_client", SVC+"utils/http.rs"), ("default of connect_to_reserved_ips", SVC+"config.rs")])
p("D03", "Every download is bounded in time",
  "Every download has a connect timeout, a head timeout and an overall timeout derived from the announced size or else the configured maximum; waiting for shared downloads or retries never removes the bound.",
  ["fault_sequences", "schedules"], "all servers and all stalls",
  "Tests cover one stalling server.",
  [SVC+"download/mod.rs", SVC+"utils/http.rs"], [("timeouts around requests and bodies", SVC+"download/mod.rs")])
p("D04", "Credentials and extra headers only go to the source they belong to",
  "The Sentry token is attached to a download only if the file was marked as needing credentials, configured headers go only to their own source, and scraping headers only to allowed origins while scraping is enabled; tokens and clients for cloud storage are made from the credentials of the source that is read, ask for read access for at most an hour, and tokens that expired are not used. Certificate validation is skipped only for sources and requests that explicitly opted out.",
  ["inputs", "configurations"], "all sources, files and URLs",
  "Tests check a token once and never its absence on foreign hosts.",
  [SVC+"download/mod.rs", SVC+"download/sentry.rs", SVC+"download/http.rs", JS+"lookup.rs", NAT+"symbolication/source_context.rs"],
  [("authorization headers of downloaders", SVC+"download/"), ("scraping headers", JS+"lookup.rs")])
p("X03", "Parallel range downloads reassemble exactly the original file",
  "A file downloaded in several ranges has exactly the bytes of a single download: the first request starts at byte 0, the further ranges cover the rest without gaps up to the announced size, an answer is written at its own offset only if it is exactly the requested range of a file of that size, and the download only succeeds when all parts did; servers that do not answer with usable ranges are asked for the whole file instead.",
  ["schedules", "inputs", "fault_sequences"], "all sizes, range splits, answers and arrival orders",
  "Tests split a few sizes against a well-behaved server.",
  [SVC+"download/mod.rs", SVC+"download/partial.rs", SVC+"download/destination.rs"], [("range requests", SVC+"download/mod.rs"), ("range splitting", SVC+"download/partial.rs"), ("destination streams", SVC+"download/destination.rs")])
p("D05", "Compressed downloads are unpacked by content, and broken ones are malformed",
  "A downloaded file is unpacked according to its leading bytes (zstd, gzip, zlib, zip, cab), everything else is kept as is; a file that cannot be unpacked is reported as malformed and never stored as if it were intact.",
  ["inputs"], "all downloaded contents",
  "Tests cover one archive per format.",
  [SVC+"download/compression.rs", SVC+"download/fetch_file.rs"], [("maybe_decompress_file", SVC+"download/compression.rs"), ("fetch_file", SVC+"download/fetch_file.rs")])

p("D06", "Every source that may have a file is asked for it, in order",
  "The files to try for an object are, source by source in the given order, all locations the source's layout and filters admit, and for Sentry all listed project files whose kind can be of a requested type; the list is queried by debug id, or by code id if there is none, with the token of the source, transient failures are repeated, failures and lists older than the configured age are not kept, and a source that cannot be asked never hides the files of the others. Files on HTTP sources are requested with the checksum of the object if it has one.",
  ["inputs", "configurations", "fault_sequences"], "all lists of sources, objects, file types and answers of Sentry",
  "Integration tests list files of a single source at a time.",
  [SVC+"download/mod.rs", SVC+"download/sentry.rs"], [("list_files over all sources", SVC+"download/mod.rs"), ("SentryDownloader::list_files, SentryFileType", SVC+"download/sentry.rs")])
p("D07", "An index of a symbol server is complete or not used at all",
  "The index of a source that has one is put together from all of its segments, from the first to the announced last one, in order; if the last id, any segment or its contents cannot be fetched or read there is no index and the source is not asked, and nothing incomplete is stored. The last id is asked again once it is older than a day (ten minutes after a failure), and a known id outlives failures; sources without an index or with another layout are asked without one.",
  ["inputs", "histories", "fault_sequences"], "all indexes, failures of single segments, and ages of the last id",
  "Tests fetch one good index and never an expired or failing one.",
  [SVC+"download/index.rs"], [("download_full_index, download_index_segment", SVC+"download/index.rs"), ("last id cache", SVC+"download/index.rs"), ("fetch_index", SVC+"download/index.rs")])

# ------------------------------------------------------------------ objects / native / js / jvm / app
p("O01", "The best available object is chosen and every candidate is reported",
  "Among the objects found for a module the one with the highest quality for the purpose (unwind info, debug info, sources, symbols) is selected, earlier candidates winning ties, and a less informative object is never preferred; every location that was tried appears among the reported candidates with its outcome, and a source without any location is reported as not found.",
  ["inputs"], "all sets of candidate objects and outcomes",
  "Tests cover two candidates at most.",
  [SVC+"objects/mod.rs", SVC+"objects/candidates.rs"], [("select_meta, object_quality", SVC+"objects/mod.rs"), ("create_candidate_info", SVC+"objects/")])
p("N01", "No module, thread or frame gets lost in native symbolication",
  "The response contains every submitted module in the submitted order and every stack trace in order; a frame that cannot be symbolicated is kept with a status saying why, and is dropped only if it was found by scanning and its function is unknown or if it lies beyond the entry point of the thread.",
  ["inputs"], "all requests",
  "Snapshot tests cover a few crashes.",
  [NAT+"symbolication/symbolicate.rs", NAT+"symbolication/module_lookup.rs"], [("symbolicate_stacktrace", NAT+"symbolication/symbolicate.rs"), ("ModuleLookup::into_inner", NAT+"symbolication/module_lookup.rs")])
p("N02", "Module and frame statuses report the real reason of a failure",
  "The status reported for a module or frame is the one that corresponds to the outcome of fetching and processing its debug file: found, missing, malformed, timeout, fetching failed or other; frames outside any module, with missing debug files or without matching symbols are told apart.",
  ["inputs", "fault_sequences"], "all outcomes",
  "Snapshot tests cover a few outcomes.",
  [NAT+"symbolication/module_lookup.rs", NAT+"symbolication/symbolicate.rs", NAT+"symbolication/native.rs"], [("object_file_status_from_cache_entry", NAT+"symbolication/module_lookup.rs")])
p("N03", "Information found for a module is attached to that module",
  "Symbol, unwind and source information and candidate reports produced for a module always end up on that very module, however modules are sorted internally and wherever they lie in the address space.",
  ["inputs"], "all module lists and orders",
  "Tests submit modules that are already sorted by address.",
  [NAT+"symbolication/module_lookup.rs", NAT+"symbolication/source_context.rs"], [("module index handling", NAT+"symbolication/module_lookup.rs")])
p("N04", "Native frames are looked up at the right address of the right module",
  "A frame belongs to the module that contains its address, or the module it names; the address looked up in that module is the previous, aligned or caller instruction as the frame and its thread ask for, only the first frame counting as crashed; every function found there becomes one frame with the module's file, the address in the preferred mode, the location found and everything else unchanged, and the start of the function is only given for the outermost one. A .NET frame is looked up by function and offset.",
  ["inputs"], "all module layouts, addresses and adjustment flags",
  "Snapshot tests cover a few modules and addresses.",
  [NAT+"symbolication/module_lookup.rs", NAT+"symbolication/native.rs", NAT+"symbolication/dotnet.rs", NAT+"interface.rs"], [("get_relative_caller_addr, symbolicate_native_frame", NAT+"symbolication/native.rs"), ("get_module_by_addr", NAT+"symbolication/module_lookup.rs")])
p("N05", "Native frames get source context from their module or its source links",
  "A native frame with a path and a line gets the lines around it from the source its module's debug file embeds for that path, else from the http or https source link given there, which is fetched once per scope and URL, sending the headers of the request only to allowed origins while scraping is enabled; the link is reported on the frame, and frames without sources stay as they are.",
  ["inputs"], "all frames, source descriptors and scraping settings",
  "Integration tests cover one embedded and one linked source.",
  [NAT+"symbolication/source_context.rs", NAT+"symbolication/module_lookup.rs"], [("apply_source_context", NAT+"symbolication/source_context.rs"), ("try_set_source_context", NAT+"symbolication/module_lookup.rs")])
p("T01", "Source context is the requested line with the lines next to it",
  "The context of line n of a source file is line n itself, preceded and followed by as many of the directly adjacent lines as exist up to the requested number (five by default), in order; a line beyond the end of the file gives no context at all. Lines of up to 150 bytes are given whole; longer ones are cut, between characters, to a piece of about 140 bytes around the requested column, and each cut side is marked.",
  ["inputs"], "all files, line numbers and numbers of context lines; lines of all lengths, with wide characters at every place, and all columns",
  "One unit test takes three lines of one text.",
  [SVC+"source_context.rs"], [("get_context_lines", SVC+"source_context.rs")])
p("J01", "Web scraping obeys the request's scraping policy",
  "A source file is fetched from the web only if scraping is enabled for the request, the URL is http or https, its origin is allowed, and it does not point at the local host unless reserved addresses are allowed; each refusal is reported, and scraped files are never put in the shared cache.",
  ["inputs", "configurations"], "all URLs and scraping configurations",
  "Tests cover a few URLs.",
  [JS+"lookup.rs", SVC+"utils/http.rs"], [("scrape", JS+"lookup.rs"), ("is_valid_origin", SVC+"utils/http.rs")])
p("J02", "Every JavaScript frame is answered exactly once",
  "For each submitted JavaScript frame the response contains exactly one frame at the same position: the symbolicated one, or the submitted one together with an error.",
  ["inputs"], "all stack traces",
  "Snapshot tests cover a few stack traces.",
  [JS+"symbolication.rs"], [("symbolicate_js", JS+"symbolication.rs")])
p("J03", "JavaScript artifacts are looked up in the documented order",
  "A JavaScript file is taken from already opened bundles, then individual artifacts, then the server's lookup, and from the web only as the last resort; the server is asked at most once per missing item and nothing that was found earlier is scraped. The source map of a file is the embedded one, the one its reference names, or the one with the debug id of the module or file, and none is made if there is neither.",
  ["inputs", "histories"], "all sets of artifacts and lookup sequences",
  "Tests cover single lookups.",
  [JS+"lookup.rs"], [("get_file", JS+"lookup.rs")])
p("J04", "A JavaScript frame is rewritten from the token at its position",
  "The token is looked up at the zero-based position of the frame in the source map of its file; the frame gets the line, column, function, file name and module of the token and the context of the original source, embedded or found as an artifact; a frame without token, source or source map is answered with the error naming what is missing, and the submitted frame keeps its position and gets the context of the minified file.",
  ["inputs"], "all frames, files and source maps",
  "Snapshot tests cover a few source maps.",
  [JS+"symbolication.rs", JS+"lookup.rs"], [("symbolicate_js_frame", JS+"symbolication.rs"), ("get_module, prepare_modules", JS+"lookup.rs")])
p("M01", "JVM frames are remapped in the documented priority and never lost",
  "Each JVM frame is remapped as a full frame if any mapping file can, else by class and method, else by class, else returned unchanged, in the order of mapping files; every resulting frame keeps the index, platform and other fields of the frame it came from, and exceptions and classes that cannot be remapped stay as they are.",
  ["inputs"], "all frames and mapping files",
  "Unit tests cover a few frames.",
  [PRO+"symbolication.rs"], [("map_frame, map_exception", PRO+"symbolication.rs")])
p("M02", "Every failure to load a mapping file is reported, and none crashes the request",
  "Whatever way fetching or parsing a mapping file fails, the response lists that file with the kind of error (missing, invalid, without line information) and everything else is still processed.",
  ["fault_sequences"], "all download, decompression and parse failures",
  "Tests cover three failures.",
  [PRO+"symbolication.rs", PRO+"service.rs"], [("error mapping in symbolicate_jvm", PRO+"symbolication.rs")])
p("M03", "JVM frames get source context from their own source file",
  "A JVM frame with a line gets the lines around it from the first source bundle, in the order of the request's modules, that has a readable file for the frame's class and a line of that number; the file is named after the package of the class and the stem of its source path, or after the outermost class if no usable path is known. Other frames, and all frames when source context is disabled, stay as they are.",
  ["inputs"], "all frames and source bundles",
  "Integration tests cover one bundle.",
  [PRO+"symbolication.rs"], [("apply_source_context, build_source_file_name", PRO+"symbolication.rs")])
p("J05", "Artifact lookups ask for what is needed and keep it per query and bundle",
  "A lookup of JavaScript artifacts asks the Sentry source, with its own token, for the release (only with it for the file stems), the distribution and all debug ids; a query too long for a request is refused instead of crashing. A list is kept per query and token, a failure is not; each lookup is bounded in time, and every listed artifact is returned once with its own file, path, headers and the way it was found. A file read from a bundle is remembered for that bundle and that file only, with its contents (source maps without) and reference; unreadable files and references are malformed, never a crash.",
  ["inputs", "histories"], "all combinations of release, distribution, debug ids, answers and failures",
  "Tests look up a few fixed artifacts of a mock server.",
  [JS+"api_lookup.rs", JS+"bundle_lookup.rs", JS+"lookup.rs"], [("lookup_js_artifacts", JS+"api_lookup.rs"), ("FileInBundleCache", JS+"bundle_lookup.rs")])
p("J06", "JavaScript names and paths are combined by the documented rules",
  "Repeated name components are folded, useless token names are replaced in the documented order, file stems, candidate URLs and webpack names keep exactly the documented parts, references are resolved against the file like URLs with ~ for the host, the source map reference is taken from the documented headers first, and the refresh period of a scraped file is exact. None of them panics.",
  ["inputs"], "all names and paths over the listed structures with arbitrary components",
  "Tests list about fifty strings.",
  [JS+"utils.rs"], [("fold_function_name, join_paths, extract_file_stem, get_release_file_candidate_urls, resolve_sourcemap_url, cache_busting_key", JS+"utils.rs")])
p("N06", "A minidump is processed with its own modules, threads and crash data",
  "Every thread of a minidump is returned in order with its number, name, topmost registers and up to 256 frames with address, package and trust; every module which is used or has an identifier is returned with its identifiers, address, unwind status, candidates and features; unwind information is fetched once per module with the module's identity, the scope and the sources of the request, and the first module's file is renamed only by its rewrite rules; client stack traces replace non-empty ones of the same thread; operating system, processor, time, reason and assertion are those of the dump; a dump which cannot be processed is an error and kept for diagnosis only where that is configured.",
  ["inputs", "fault_sequences", "configurations"], "all thread, frame, module and identifier combinations, all operating systems and processors, all outcomes of unwinding and of fetching unwind information",
  "Four minidumps are processed by the tests, all of which succeed.",
  [NAT+"symbolication/process_minidump.rs"], [("stackwalk, load_cfi_module, fill_symbol, stackwalk_minidump, merge_clientside_with_processed_stacktraces", NAT+"symbolication/process_minidump.rs")])
p("N07", "An Apple crash report is processed with its own images, threads and details",
  "Every thread of an Apple crash report is returned with its number, name, registers, frames and whether it crashed, every binary image with its identifiers, path and address; system, processor, time, reason and details come from the documented fields in the documented order, and the processor is completed from the modules; the request keeps scope, sources and platform, and a report which cannot be read is an error.",
  ["inputs", "fault_sequences"], "all thread, image and metadata combinations",
  "One crash report is processed by the tests.",
  [NAT+"symbolication/apple.rs"], [("parse_apple_crash_report, merge_into, map_apple_binary_image", NAT+"symbolication/apple.rs")])
p("N08", "Client stack traces in a minidump are read within the bounds of their stream",
  "The stack trace stream a client adds to a minidump is accepted exactly if its version and its length fit its header, is read only within its bounds and with proper alignment, and gives every thread its own frames with their address and symbol text as the documented layout says; frame and symbol ranges outside of the stream are errors, and a minidump without such a stream is not.",
  ["inputs"], "all header values, lengths, frame and symbol ranges of the stream",
  "Tests parse about fifteen streams; the parser uses unchecked pointers, so a wrong bound does not fail a test.",
  [NAT+"symbolication/minidump_stacktraces.rs"], [("Format::parse, Thread::frames, Frame::symbol", NAT+"symbolication/minidump_stacktraces.rs")])
p("N09", "Every lookup asks for the right files, for the right purpose and object",
  "Symbols and managed symbols are made from files with debug information, unwind tables from files with unwind information and source context from files with sources, of exactly the file types that belong to the kind of module or request, looked for by the identifiers, scope and sources of the request; symbol maps, line mappings, mapping files and source bundles are looked for by the debug id alone or the object they belong to, a symbol map by the uuid its mapping names; the first usable file in search order is taken, and the outcome of that lookup - found, missing or failed - is what the caller gets.",
  ["inputs", "fault_sequences"], "all kinds of modules, listings, outcomes of lookups, downloads and parsing",
  "Tests look up a handful of files, all of which exist under every name and purpose they are looked for.",
  [NAT+"caches/symcaches.rs", NAT+"caches/cficaches.rs", NAT+"caches/ppdb_caches.rs", NAT+"caches/bitcode.rs", NAT+"caches/il2cpp.rs", PRO+"service.rs", APP+"endpoints/proxy.rs"],
  [("SymCacheActor, CfiCacheActor, PortablePdbCacheActor::fetch", NAT+"caches/symcaches.rs"), ("BitcodeService::fetch_bcsymbolmap", NAT+"caches/bitcode.rs"), ("ProguardService", PRO+"service.rs"), ("load_object", APP+"endpoints/proxy.rs")])
p("N10", "The report on a file says how it was used and what came of it",
  "When symbols or unwind tables are derived from a file, exactly that file's entry in the list of candidates, in the field of that use, says that it was used, malformed or failed, with the reason; a failed download is left to the download field; the result itself and the features of the file are passed on unchanged, and without a file there is neither a report nor a feature, and the result is not found.",
  ["inputs", "fault_sequences"], "all outcomes of the lookup and of deriving, both uses",
  "Tests see the reports of a successful lookup and of one malformed file.",
  [NAT+"caches/derived.rs"], [("derive_from_object_handle", NAT+"caches/derived.rs")])
p("C13", "Every kind of data has its own cache, and what is loaded is what was stored",
  "Every service keeps each kind of derived data in the cache of its kind, backed by the shared cache, and starts only if its caches do, with the temporary folders cleared. Loading an entry reads exactly the stored bytes: an unreadable entry is an error, never empty data; a readable one is never an error; and the loaded item carries the identifiers, scope and source of the request it was loaded for.",
  ["inputs", "fault_sequences"], "all services, caches, request types and outcomes of reading their files",
  "Tests construct each service once and read only intact files.",
  [SVC+"services.rs", SVC+"caching/mod.rs", SVC+"objects/data_cache.rs", NAT+"caches/cficaches.rs"], [("SharedServices::new, Caches::from_config, every CacheItemRequest::load", SVC+"services.rs")])
p("C14", "What caches keep in memory is bounded, and expires exactly when it should",
  "An item in memory stays until its own deadline, also when it replaces another one, and never longer; what an item counts against the configured capacity is at least what it holds, also for failures; the files of bundles that are kept for JavaScript are bounded in size and time alike; tokens, clients and lists of files of sources are bounded as configured, and lists are asked for again after the configured time. Temporary files are made in the folder of their cache, which is made again if a cleanup removed it meanwhile, and failing to make one is an error after several attempts. A request is answered with the item that is kept under its own key, or with the one computed for it, which is then kept under that key and nowhere else.",
  ["inputs", "fault_sequences", "configurations"], "all deadlines, item sizes and outcomes, all sequences of failing file operations",
  "Tests keep a handful of small items for less than a second.",
  [SVC+"caching/memory.rs", SVC+"caching/fs.rs", SVC+"download/index.rs", JS+"bundle_lookup.rs"],
  [("CacheExpiration, Cacher::new, CacheItemRequest::weight", SVC+"caching/memory.rs"), ("Cache::tempfile", SVC+"caching/fs.rs"), ("FileInBundleCache::new", JS+"bundle_lookup.rs")])
p("R06", "Recorded metrics are reported once, complete and under their own name and tags",
  "Every counter, gauge, timer, histogram and set value that any thread records is part of exactly one report: counters add up over threads, timers and histograms keep every value, sets every distinct value, gauges a last one; names carry the configured prefix, tags follow the configured ones and never leak into other metrics, durations are in milliseconds, and a failing connection does not stop later reports.",
  ["inputs", "schedules", "configurations"], "all recorded values, threads, tags and configurations",
  "No test looks at a reported metric.",
  [SVC+"metrics.rs"], [("make_aggregator, aggregate_all, LocalAggregator, configure_statsd", SVC+"metrics.rs")])
p("R07", "Wrapped work keeps its outcome, stops when it is given up and is cleaned up once",
  "The wrappers around futures and requests do not change them: measured work is done once, when it is awaited, and its outcome is handed on unchanged, with the status that belongs to that outcome; a spawned task goes on while it is waited for and is aborted as soon as nobody waits for it; what is registered to happen at the end happens exactly once and not before; measuring a download never fails, however short or large it was; and the answer of an endpoint reaches the client as the endpoint gave it.",
  ["inputs", "schedules", "fault_sequences"], "all outcomes of the wrapped work, polled, finished or abandoned at any point, all durations and sizes",
  "Tests never abandon a task or look at a pending answer.",
  [SVC+"utils/futures.rs", SVC+"download/mod.rs", APP+"endpoints/metrics.rs"], [("measure, CancelOnDrop, CallOnDrop", SVC+"utils/futures.rs"), ("MeasureSourceDownloadGuard, measure_download_time", SVC+"download/mod.rs"), ("MetricsFuture, MetricsService", APP+"endpoints/metrics.rs")])
p("R01", "Requests are answered, expire and free their slot however they end",
  "Every accepted request eventually reports completed, failed, timed out or internal error to pollers, stays available for a bounded time afterwards and is then forgotten; it occupies one slot of the concurrency limit from acceptance until it ends, even if it crashes, and a request beyond the limit is refused without any effect.",
  ["schedules", "fault_sequences"], "all request outcomes including panics and cancellations",
  "Tests never make a request crash and then use up the limit.",
  [APP+"service.rs"], [("create_symbolication_request, wrap_response_channel", APP+"service.rs")])
p("R02", "Endpoints pass every request parameter on to processing",
  "Scope, sources, scraping settings, options, platform and payload given to an endpoint reach processing unchanged; sources default to the configured ones only when the request names none, scraping is switched off if either of the two switches says so, oversized form fields are rejected, and a missing payload is a client error.",
  ["inputs"], "all requests to all endpoints",
  "Endpoint tests send a few fixed requests.",
  [APP+"endpoints/"], [("request handlers", APP+"endpoints/")])
p("R03", "The symbol proxy only serves public default sources when enabled",
  "The symbol proxy answers not found unless it is enabled, looks only in the server's default sources under the global scope, answers unknown or missing paths with not found, and sends no body for HEAD requests.",
  ["inputs", "configurations"], "all proxy requests and configurations",
  "Tests cover one hit and one miss.",
  [APP+"endpoints/proxy.rs"], [("load_object, proxy_symstore_request", APP+"endpoints/proxy.rs")])

p("R04", "A configuration file is read as documented",
  "Every documented setting is read, may be left out, and then has its documented default; times are read with their unit; log levels and formats are exactly the documented ones. Without a file the service uses the defaults; a file which cannot be opened or read, is empty or blank, or is not valid is an error and never replaced by defaults.",
  ["configurations", "fault_sequences"], "every subset of settings left out, every log level text, every failure to read the file",
  "Tests read about five configurations, all of them intact.",
  [SVC+"config.rs", "docs/index.md"], [("Config::get, Default impls, serde attributes, LevelFilterVisitor", SVC+"config.rs")])
p("R05", "An error answer has the status, message and causes of its error",
  "An error is answered as JSON with exactly its own status, the outermost message as detail and the remaining messages of its chain, in order, as causes (absent if there are none). Exactly the failures of the server, other than an exceeded request limit, are reported to the error tracker.",
  ["inputs"], "all statuses from 400 and all error chains",
  "No test looks at the body of an error answer or at what is reported.",
  [APP+"endpoints/error.rs"], [("ResponseError::into_response, ApiErrorResponse::from", APP+"endpoints/error.rs")])
p("T02", "Values with a textual form are read as written and written as read",
  "Addresses are read from numbers and from decimal or 0x/0X hexadecimal text and written as 0x hexadecimal; address modes are `abs` and `rel:N`; path patterns, object types, S3 regions (a name, or a name with an endpoint), platforms and file statuses have one text each, which reads back as the same value. Other text is an error (an unknown object type is `unknown`, an unknown platform is kept). A debug file is renamed by the first rewrite rule that matches it, and otherwise left alone.",
  ["inputs"], "all texts and values of these types",
  "Tests parse a handful of addresses and source configurations and never write one and read it back.",
  [SVC+"utils/hex.rs", NAT+"interface.rs", SVC+"types.rs", SRC+"types.rs", SRC+"sources/s3.rs"], [("HexValue, AddrMode, RewriteRules", SVC+"utils/hex.rs"), ("serialize_region, deserialize_region", SRC+"sources/s3.rs"), ("Glob, ObjectType", SRC+"types.rs")])
p("T03", "Every type both written and read as JSON or YAML reads back what it wrote",
  "For every type with derived serialization in both directions: each field is written under a name it is read from, no two fields or variants share a name, a field that may be left out when written is optional when read and then has exactly the value for which it was left out, and of the alternatives of an untagged type no earlier one accepts what a later one writes.",
  ["inputs"], "all serialized types of the workspace (about eighty) and all their fields and variants",
  "Tests compare serialized snapshots of some responses; none reads them back.",
  [SRC+"sources.rs", SVC+"types.rs", NAT+"interface.rs", JS+"interface.rs", PRO+"interface.rs", APP+"service.rs"], [("serde attributes of every type deriving Serialize and Deserialize", JS+"interface.rs")])
p("A01", "Command line options keep their documented names and kinds",
  "Every documented option and command of symbolicator, symsorter, wasm-split and symbolicli exists under its long and short name, takes a value, none, or a count as documented, is required, optional or defaulted as documented, excludes exactly the options it is documented to exclude, and no other argument is required.",
  ["inputs"], "all options and commands of the four programs",
  "No test parses a command line; scripts and deployments rely on the names.",
  ["crates/symsorter/src/app.rs", "crates/wasm-split/src/main.rs", APP+"cli.rs", "crates/symbolicli/src/settings.rs"], [("clap attributes of every option", APP+"cli.rs")])
p("A02", "symbolicli takes each setting from its documented place of precedence",
  "Each setting of symbolicli is taken from the command line, then (for the token) from SENTRY_AUTH_TOKEN, then from the nearest configuration file of the project, then from the one in the home directory; sources of both files are used. Missing files count as empty, and broken or unreadable files, missing credentials and unusable URLs are reported as errors. Offline mode needs no credentials.",
  ["inputs", "configurations"], "all combinations of options, environment, configuration files and their states, in a project inside or outside of the home directory",
  "symbolicli has no tests.",
  ["crates/symbolicli/src/settings.rs"], [("Settings::get, ConfigFile::parse, lookup of the files", "crates/symbolicli/src/settings.rs")])
p("A03", "symbolicator runs the command asked for, with the configuration given",
  "The configuration file named on the command line is the one that is read, and an invalid one stops the program. `run` starts the server and `cleanup` cleans the caches, with that configuration and with the dry run flag given; their failures are the program's. Metrics are sent exactly if a server is configured, under the configured prefix, with the custom tags and each of the host, environment and platform tags which are configured and known.",
  ["inputs", "configurations"], "both commands, all configurations of metrics and tags, all failures",
  "No test runs the program.",
  [APP+"cli.rs"], [("execute", APP+"cli.rs")])
p("A04", "symbolicli symbolicates all of an event and shows the crashing thread of it",
  "symbolicli sends every usable stack trace of an event (exceptions first, then threads, as recorded rather than as processed if both are there, innermost frame first, each frame as it is in the event) with the event's images, platform and release, and refuses an event without any. The files of the project are looked for first, then those of configured sources, then those of a local folder. A local file is a minidump if it starts like one and otherwise an event; without one, the event is asked for online, and its minidump is used if it has one attached. The result is printed once, in the format asked for; failures are the program's. The tables show the frames of the crashing thread with their offsets into module and function, for any event.",
  ["inputs", "configurations", "faults"], "events with up to two exceptions and a thread, usable and unusable frames, all modes and formats, all answers of the server and failures, all relations of address, package and modules",
  "symbolicli has no tests.",
  ["crates/symbolicli/src/main.rs", "crates/symbolicli/src/output.rs"], [("main, Payload, mod event, mod remote, prepare_dsym_sources", "crates/symbolicli/src/main.rs"), ("NativeFrames, get_crashing_thread_frames", "crates/symbolicli/src/output.rs")])
# --------------------------------------------------- known to be out of reach of static analysis
p("X01", "Addresses resolve to the correct function, file and line",
  "For every address inside a module with debug information, the reported function, file and line (including inlined frames) are those the compiler recorded for it.",
  ["inputs"], "all debug files and addresses",
  "Snapshots cover a few addresses.",
  [NAT+"symbolication/native.rs", NAT+"caches/symcaches.rs"], [("symbolicate_native_frame", NAT+"symbolication/native.rs")])
p("X02", "A requested item is computed at most once at a time per process",
  "However many requests ask for the same cached item at the same time, at most one computation per item runs in the process and all requesters get its result.",
  ["schedules"], "all interleavings of requests",
  "Tests run a few concurrent requests.",
  [SVC+"caching/memory.rs"], [("compute_memoized", SVC+"caching/memory.rs")])
p("X04", "A host is blocked exactly at its failure threshold, and only for a time",
  "A registered download failure blocks the host exactly if its failures within the configured time window (at the configured granularity) reach the threshold and it is not listed as never to be blocked; no failure within the window is forgotten, none outside counts, and the record stays bounded. A host is blocked for the configured time, only blocked hosts are refused, and no setting or clock makes registering a failure panic.",
  ["histories", "configurations"], "all failures on record, windows, granularities and thresholds, with a clock that does not run backwards",
  "Tests use short sleeps for two sequences with one setting.",
  [SVC+"download/mod.rs"], [("HostDenyList", SVC+"download/mod.rs")])
p("X05", "JavaScript tokens map to the original position and name",
  "For every minified position covered by a source map, the reported original file, line, column and function are those the source map and scope information define.",
  ["inputs"], "all source maps and positions",
  "Snapshots cover a few maps.",
  [JS+"symbolication.rs", JS+"sourcemap_cache.rs"], [("symbolicate_js_frame", JS+"symbolication.rs")])
p("X06", "Minidump stack walks recover the real call chain",
  "For every thread of a minidump the recovered frames are the call chain at the crash as far as the available unwind information determines it.",
  ["inputs"], "all minidumps",
  "Snapshots cover a few dumps.",
  [NAT+"symbolication/process_minidump.rs"], [("stackwalk", NAT+"symbolication/process_minidump.rs")])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
