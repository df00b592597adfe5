from vlib import Job
CHECKS = {}
def C(id, jobs, rule, require, technique, level="exploration", note="", assumptions=()):
    CHECKS[id] = dict(jobs=jobs, rule=rule, require=require, technique=technique, level=level, note=note, assumptions=list(assumptions))

C("C01", [Job("paths", "c_paths.cc", "norm_random,norm_exhaustive,norm_manyseg")],
  "Paths from a grammar of separators, dots, dotted names, long and many segments, plus all strings of length <=7 over {/,\\,.,a}; each normalized separately and in place into exact, short and large ranges; distinct = distinct canonical form and segment count.",
  ["normalize_separate", "normalize_inplace", "overflow_results", "ok_results"],
  "reference-model monitor with ASan/UBSan over generated and exhaustive short paths")
C("C02", [Job("paths", "c_paths.cc", "split_random,split_exhaustive")],
  "All strings of length <=8 over {/,\\,.,a} and random longer paths; distinct = distinct returned part.",
  ["basename", "dirname", "extname", "scanned"], "reference-model monitor (os.path semantics) with ASan/UBSan")
C("C03", [Job("paths", "c_paths.cc", "join"), Job("paths_long", "c_paths.cc", "join", config=[("ALLOW_LONG_PATHS", "1")]), Job("paths_600", "c_paths.cc", "join", config=[("EVFS_MAX_PATH", "600")])],
  "Random heads and tails as C strings, substrings, embedded strings and in place, ranges around the exact size and the path limit; distinct = distinct result, mode and fit.",
  ["joins", "ok_results", "overflow_results"], "reference-model monitor with guarded buffers, ASan/UBSan")
C("C04", [Job("paths", "c_paths.cc", "absolute"), Job("paths_long", "c_paths.cc", "absolute", config=[("ALLOW_LONG_PATHS", "1")]), Job("paths_600", "c_paths.cc", "absolute", config=[("EVFS_MAX_PATH", "600")])],
  "Random paths, working directories and range sizes; separate, same-start, inside and partially overlapping buffers; distinct = distinct result, overlap mode and outcome.",
  ["absolute_separate", "absolute_overlap", "drive_relative", "ok_results", "overflow_results"], "reference-model monitor with guarded buffers, ASan/UBSan")
NOT_APPLICABLE = {
 "C31": "The littlefs library sources are absent from this checkout (libraries/littlefs is empty) and nothing can be fetched, so no littlefs code can be executed and monitored.",
}
C("C05", [Job("jail", "c_jail.cc", "contain")],
  "Jail (also nested, POSIX and drive-letter bases, roots up to the path limit) over a recording base VFS; sequences of operations with hostile paths; distinct = distinct client path target and operation.",
  ["paths_seen_below", "path_ops_ok", "path_ops_error", "getcwd"], "reference monitor on every path reaching a recording base VFS, ASan/UBSan")
C("C06", [Job("jail", "c_jail.cc", "equiv")],
  "The same operation sequence through a jail and directly below the root of a twin base (in-memory with injected faults, and the host file system); distinct = distinct operation result.",
  ["operations", "setcwd_ok", "setcwd_refused", "faults_hit", "long_paths", "open", "read", "write", "rename", "dir_read"], "differential monitor against a twin base VFS, injected base faults, ASan/UBSan")
C("C09", [Job("trace", "c_trace.cc", "trace"), Job("trace64", "c_trace.cc", "trace", config=[("EVFS_FILE_OFFSET_BITS", "64")])],
  "Random operation sequences with hostile names and injected faults through one or two trace shims and directly on a twin base, with 32- and 64-bit offsets; distinct = distinct result and calls reaching the base.",
  ["operations", "reports", "faults_hit", "open", "read", "write", "seek", "rename", "dir_read", "vfs_ctrl", "file_ctrl"],
  "differential monitor: results, calls recorded by the base, and reports, against a twin base VFS; ASan/UBSan")
C("C07", [Job("stdio", "c_stdio.cc", "bytes,hosterr,big"), Job("stdio64", "c_stdio.cc", "bytes,big", config=[("EVFS_FILE_OFFSET_BITS", "64")])],
  "Random sequences of opens in every documented mode and file operations on scratch files, the host file read back independently after syncs and closes; sparse files of up to 8 GiB with 32- and 64-bit offsets; full device, file size limit, directory and missing-permission cases; distinct = distinct (operation, position, size).",
  ["large_files", "opens", "reads", "writes", "seeks", "truncates", "syncs", "eofs", "sizes", "full_device", "size_limit", "no_permission", "read_directory", "big_fits", "big_beyond", "big_positions", "big_copies"],
  "byte-array reference model plus independent host read-back, real host faults (ENOSPC device, RLIMIT_FSIZE); ASan/UBSan")
C("C08", [Job("stdions", "c_stdio.cc", "ns,big")],
  "Random namespace operations on two identical scratch trees, one through the VFS and one through the host calls, absolute and relative; distinct = distinct tree reached.",
  ["stat", "make_dir", "delete", "rename", "create", "listings", "set_cur_dir", "get_cur_dir", "refused", "done"],
  "twin-tree differential monitor against the POSIX calls")
NOSHARED = [("EVFS_USE_ROTATE_SHARED_BUFFER", None)]
C("C10", [Job("rotate", "c_rotate.cc", "append,wide,many"), Job("rotate_nobuf", "c_rotate.cc", "append", config=NOSHARED)],
  "Random appends (exact chunk and capacity boundaries, larger than the capacity), closes, reopens, remounts, configuration changes on up to three position-coded logs over memory, buffered memory, jailed and host file systems; capacities around 2^30 to 2^34 bytes; up to 66,000 stored chunks; distinct = distinct (geometry, size, amount written).",
  ["wide", "many_chunks", "many_beyond_16_bits", "many_wrapped", "large_geometries", "prepared_wrapped", "appends", "rotations", "remounts", "reconfigured", "verified", "closes"],
  "reference-model monitor: position-coded streams, exact suffix, size and storage bounds; ASan/UBSan")
C("C11", [Job("rotate", "c_rotate.cc", "array,plain,huge"), Job("rotate64", "c_rotate.cc", "array,huge", config=[("EVFS_FILE_OFFSET_BITS", "64")]), Job("rotate_nobuf", "c_rotate.cc", "array", config=NOSHARED)],
  "Random reads, writes in append and random-access mode, seeks, trims, truncations and queries against a byte array; plain files and directories against a twin base; distinct = distinct (operation, geometry, position, size).",
  ["large_geometries", "prepared_wrapped", "appends", "overwrites", "extends", "reads", "seeks", "trimmed", "truncates", "drops", "queries", "plain_operations", "container_deletes", "huge", "huge_limit", "huge_beyond", "huge_drops", "huge_truncates", "huge_trims"],
  "byte-array reference model and twin-base differential monitor; ASan/UBSan")
C("C12", [Job("rotate", "c_rotate.cc", "crash,fault"), Job("rotate_nobuf", "c_rotate.cc", "crash,fault", config=NOSHARED, only="thorough")],
  "Storage snapshots taken before the operations on the base VFS (unbuffered and buffered until sync/close) are each remounted, read and appended to; single failing, short and partially effective base operations at every position; distinct = distinct (geometry, bytes found, tail lost) and (fault, geometry, size).",
  ["crash_points", "faults_hit", "fault_write", "fault_delete", "fault_open", "fault_stat", "fault_close", "trims", "truncates", "verified", "container_deletes"],
  "crash-point and fault injection at the base VFS with a position-coded stream oracle; ASan/UBSan")
C("C13", [Job("tar", "c_tar.cc", "mount,real,iter,huge"), Job("tar64", "c_tar.cc", "huge,iter", config=[("EVFS_FILE_OFFSET_BITS", "64")]), Job("tar_nobuf", "c_tar.cc", "mount", config=[("EVFS_USE_TARFS_SHARED_BUFFER", None)])],
  "Random archives (ustar and GNU headers, prefixes, duplicate paths, dot segments, number styles, links and other types, all endings) and archives written by the host's tar, mounted from a file and from an exact-size buffer; every stored path, paths near them, spellings, four interleaved handles; distinct = distinct (bytes read, position, size).",
  ["large_images", "many_entries", "huge_files", "huge_beyond_31_bits", "huge_late", "huge_iterated", "opens", "absent", "stats", "reads", "seeks", "queries", "rsrc_addr", "refused", "set_cur_dir", "get_cur_dir", "mounts_file", "mounts_memory", "real_archives", "iterated", "iter_seeks", "iter_beyond", "iter_bad_seeks", "whole_files"],
  "reference-model monitor over encoded and tool-written archives; ASan/UBSan, allocation and handle accounting")
NOIDX = [("EVFS_USE_ROMFS_FAST_INDEX", None)]
C("C14", [Job("romfs", "c_romfs.cc", "mount,huge"), Job("romfs_names64", "c_romfs.cc", "mount", config=[("EVFS_ROMFS_MAX_NAME_LEN", "64")]), Job("romfs_names16", "c_romfs.cc", "mount", config=[("EVFS_ROMFS_MAX_NAME_LEN", "16")], only="thorough"), Job("romfs64", "c_romfs.cc", "huge", config=[("EVFS_FILE_OFFSET_BITS", "64")]), Job("romfs_noindex", "c_romfs.cc", "mount", config=NOIDX), Job("romfs_nobuf", "c_romfs.cc", "mount", config=[("EVFS_USE_ROMFS_SHARED_BUFFER", None)])],
  "Random trees encoded in genromfs layout (hard-linked files, special files, long names and volume names, empty directories), mounted from a file and from an exact-size buffer, with and without the path index and the shared buffer; every path, paths near them, spellings, listings with and without dots and rewinds; distinct = distinct (bytes read, position, size) and listing.",
  ["below_files", "longest_paths", "short_images", "large_images", "many_entries", "huge_files", "huge_beyond_31_bits", "huge_late", "opens", "absent", "stats", "reads", "seeks", "queries", "rsrc_addr", "refused", "set_cur_dir", "get_cur_dir", "mounts_file", "mounts_memory", "listings", "entries", "rewinds", "whole_files"],
  "reference-model monitor over encoded images in three build configurations; ASan/UBSan, allocation and handle accounting")
C("C15", [Job("hostile", "c_hostile.cc", "tar,iter,rom,rotate"), Job("hostile_noindex", "c_hostile.cc", "rom", config=NOIDX), Job("hostile64", "c_hostile.cc", "tar,iter,rom", config=[("EVFS_FILE_OFFSET_BITS", "64")]), Job("hostile_fat", "c_fat.cc", "fat_hostile", fatfs=True)],
  "Random bytes, truncations, byte and block damage, and well-formed archives and images with individual header fields set to extreme values (checksums corrected), and rotate containers with hostile chunk names, geometry and contents; each mounted from a file and from an exact-size buffer, walked and read; distinct = distinct (size read, result).",
  ["changing", "offered", "accepted", "rejected", "opened", "opened_dirs", "stats", "iterated", "rsrc_addr", "long_parts"],
  "structure-aware hostile workloads under ASan/UBSan with bounds, progress and registration monitors")
C("C24", [Job("fat", "c_fat.cc", "fat_model,fat_full,fat_make", fatfs=True)],
  "Random sequences of file, directory and working-directory operations on one or two FAT12/16/32 volumes held in image files, small volumes driven to exhaustion, remounts; names from the LFN and 8.3 space, every spelling of paths; distinct = distinct (operation, position, size) and image state.",
  ["opens", "reads", "writes", "seeks", "extended", "truncates", "syncs", "queries", "stats", "make_dirs", "deletes", "renames", "listings", "rewinds", "set_cur_dir", "get_cur_dir", "path_queries", "drive_paths", "bursts", "prefilled", "roots_filled", "formats", "two_tables", "small_roots", "small_clusters", "remounts", "full", "images_checked", "fat12", "fat16", "fat32", "whole_files", "makes_failed", "times_checked", "clock_1980_2043", "clock_after_2043"],
  "model file system plus an independent reader of the image (tree, contents, allocation table) after every unmount; ASan/UBSan")
C("C16", [Job("ro", "c_ro.cc", "ro_stdio,ro_image"), Job("fatro", "c_fat.cc", "fat_readonly", fatfs=True)],
  "Random operations and open flag combinations on stdio (directly, through a jail, a trace shim and both, with absolute and relative paths), FAT, tar and romfs volumes, the setting toggled at any time with files open; distinct = distinct (operation, flags, result, layer).",
  ["readonly_ops", "restored", "set", "cleared", "direct", "layered", "relative", "readonly_reads", "opens_refused", "write", "truncate", "delete", "rename", "make_dir", "tar", "tar_rsrc", "romfs", "romfs_rsrc"],
  "byte- and metadata-exact snapshots of the storage, recorder on the VFS below; ASan/UBSan")
C("C26", [Job("faults", "c_faults.cc", "below,change", fatfs=True), Job("fatfault", "c_fat.cc", "fat_fault", fatfs=True), Job("rotfault", "c_rotate.cc", "fault", workers=3), Job("mirror", "c_jail.cc", "equiv", workers=2), Job("trace", "c_trace.cc", workers=2)],
  "Scenarios of operations on jail, trace, rotate, tar, romfs, FAT and three-shim stacks; for each k every reading operation of the scenario runs with the k-th operation of the VFS below failing or transferring short, then again without, or with a region of the image that cannot be read; for changing operations one operation meets the k-th fault and success is compared with the undisturbed tree, failure with the entries it has no business with; plus fault rounds on FAT images, rotate containers and mirrored jail and trace stacks; distinct = distinct (kind, operation, faulted operation, position, outcome).",
  ["bad_regions", "fault_rounds", "faults_hit", "reported", "repeated", "succeeded", "short_counts", "short_rests", "touched", "reopened", "below_open", "below_close", "below_read", "below_write", "below_seek", "below_tell", "below_size", "below_stat", "below_sync", "below_truncate", "below_mkdir", "below_delete", "below_rename", "below_opendir", "below_dread", "below_getcwd", "fault_mount", "fault_open", "fault_read", "fault_list", "fault_stat", "change_write", "change_open", "change_rename", "change_copy", "change_close", "change_make_path"],
  "fault-injecting base VFS; oracle: error, true shorter count, or the result of the undisturbed run; repeated operation equals the undisturbed result, no lock held, no base handle or allocation lost; ASan/UBSan")
C("C17", [Job("reg", "c_reg.cc", "registry,registry_stdio")],
  "Random sequences of registrations (objects with unique, shared, empty and long names, complete and minimal method tables, shims over registered and unregistered names), removals, unregister-all, lookups and operations by name and on the default; distinct = distinct registry state (names, objects, default).",
  ["registers", "re_registers", "shared_names", "demotions", "shims", "unregisters", "unregister_absent", "unregister_alls", "operations", "operations_without_vfs", "defaults_used", "stdio_registers"],
  "reference model of the registry checked after every call, recording objects; ASan/UBSan")
C("C22", [Job("evfs", "c_evfs.cc", "copy,copy_args")],
  "Files of sizes around the transfer buffer size copied between in-memory (also buffering), jailed, traced and host file systems, with own buffers from one byte and without, from any source position, written but unsynced sources, existing destinations, missing directories, full destinations and a failing or short operation at each position; distinct = distinct (layers, size, buffer, fault, position).",
  ["copies", "large_copies", "complete", "existing", "refused", "full", "faults_hit", "fault_read", "fault_write", "fault_close", "fault_size", "fault_seek", "fault_open", "short_writes", "short_reads", "unsynced_sources"],
  "byte comparison on the base VFS with injected faults, handle and allocation accounting; ASan/UBSan")
C("C23", [Job("evfs", "c_evfs.cc", "mkpath,mkpath_host")],
  "Random paths (roots, drive letters, repeated and trailing separators, dots, long) as strings, exact-size ranges without terminator, substrings of longer paths and larger buffers over in-memory, jailed, traced and host trees with files in the way, failing stat and mkdir at each position; distinct = distinct (path, directory, result).",
  ["make_paths", "exact_ranges", "substrings", "large_ranges", "blocked", "faults_hit", "created", "host_make_paths"],
  "tree comparison before and after against the set of prefixes, injected faults; guarded ranges, ASan/UBSan")
C("C28", [Job("evfs", "c_evfs.cc", "printf,names")],
  "Random formats and arguments (long, empty, with NULs, positional, wide fields) and plain strings printed to in-memory, traced and host files and read back, failing and short writes; every code from -70000 to 70000 and random ones named; distinct = distinct text.",
  ["prints", "puts", "long_texts", "embedded_nul", "faults_hit", "names"],
  "comparison with the host's formatter and a fixed name table; ASan/UBSan")
C("C19", [Job("glob", "c_glob.cc", "glob,glob_exhaustive,glob_long,find")],
  "Random patterns (sets with ranges, negation, bytes above 127, unterminated) and names near them, every pattern of length <=4 (thorough 5) over {a,b,*,?,/,[,],!,-} on every name of length <=4 over {a,b,/,-}, many stars on long names; directory searches over in-memory, jailed, traced and host directories mixed with plain reads, rewinds and failing reads; distinct = distinct pattern and entry found.",
  ["matches", "matching", "not_matching", "malformed", "long", "long_texts", "finds", "found", "completed", "mixed_reads", "faults_hit"],
  "reference matcher (dynamic programming) and listing oracle; exact-size buffers, ASan/UBSan, CPU limit")
C("C20", [Job("dhash", "c_dhash.cc", "map,map_big,helpers,probes,limits")],
  "Random inserts, updates, lookups, in-place changes, removals, reservations and iterations with integer and string keys (empty, with NULs), value sizes 1 to 64, seven hash distributions from ideal to constant, allocated, limited and external storage, refusing callbacks and failing allocations, one hash shared by more items than can be probed, items put in front of such a run, and growth that cannot place its items; distinct = distinct (size, distribution, operation, value size, capacity, presence).",
  ["inserts", "updates", "updates_refused", "found", "not_found", "removed", "remove_absent", "changed_in_place", "iterations", "reserves", "grown", "insert_failed", "alloc_failed", "init_refused", "freed", "limits_checked", "long_probes", "probe_limit", "limit_run", "limit_refused", "limit_not_grown", "helpers"],
  "reference map and release ledger checked after every operation; exact-size buffers, ASan/UBSan, allocation accounting")
C("C32", [Job("int", "c_int.cc", "integers,roots,fixed,si,curves,access", extra=["c_intu.c"])],
  "Integers of every magnitude, often next to powers of two and ten and at the ends of their types, all fixed-point scales and places; every byte order, type and misalignment, C and C++ variants; distinct = distinct magnitude class of arguments and results.",
  ["integers", "roots", "large_roots", "fixed", "fixed_negative", "fixed_rounded", "base10", "si", "si_negative_exponent", "curves", "unaligned"],
  "exact reference arithmetic (128-bit) with UBSan; exact-size guarded buffers")
C("C30", [Job("getopt", "c_getopt.cc", "parse,parse_exhaustive,usage")],
  "Random option specifications (no, required and optional arguments, leading ':', long tables with flags and shared prefixes, with and without permute_args) and argument vectors (clusters, attached and separate arguments, '=', unknown and truncated names, '--', '-', empty strings, empty vectors), one to four parses advanced in turns from clean and dirty states; all vectors of up to 3 (thorough 4) words over a fixed alphabet; usage text of random specifications in widths from 0 to 120; distinct = distinct (specification, vector).",
  ["calls", "parses", "errors", "missing", "arguments", "long", "short", "flags", "operands", "interleaved", "switches", "usage", "usage_forms", "usage_details"],
  "reference model of the getopt rules compared result by result, argument vectors and strings ending at inaccessible pages; ASan/UBSan")
C("C21", [Job("range", "c_range.cc", "append,copy,edit,token,convert")],
  "Append sequences (text, ranges with and without NUL, characters, formats, integers, fixed-point values of many scales with padding) on buffers of 0 to 300 bytes (some to 70,000) with lengths around the space left; copies, concatenations, trims, padding, truncation, comparison and printing of ranges with and without NUL in exact-size memory; interleaved tokenizing with and without limits; decimal conversion; distinct = distinct (operation, length, space, result) and texts.",
  ["large_buffers", "cat_str", "cat_str_no_nul", "cat_range", "cat_range_no_nul", "cat_char", "cat_char_no_nul", "cat_fmt", "cat_uint", "cat_int", "cat_ufixed", "cat_fixed", "negative", "fits", "refused", "copy", "strlcpy", "strxcpy", "strlcat", "trims", "pads", "terminates", "set_lens", "equal", "different", "is_int", "outputs", "stdout", "tokens", "token_interleaved", "parts", "adjusts"],
  "reference results on unbounded strings and 128-bit arithmetic, exact-size guarded buffers compared byte by byte; ASan/UBSan")
C("C25", [Job("faults", "c_faults.cc", "alloc", fatfs=True)],
  "Scenarios of 8 to 30 operations (every operation of the interface, mounting and unmounting) on a memory, stdio, jail, trace, rotate, tar, romfs (file and resource), FAT and three-shim stack; for each k every operation of the scenario runs with its k-th allocation failing, then again with memory available; distinct = distinct (kind, operation, failing allocation, outcome).",
  ["failures", "reported", "repeated", "survived", "fail_mount", "fail_open", "fail_open_dir", "fail_copy", "fail_make_path", "fail_printf", "fail_rename", "fail_delete", "fail_set_cur_dir", "fail_list", "fail_read", "fail_write", "fail_stat", "fail_absolute", "fail_normalize"],
  "allocation-failure injection in the allocator interposer; oracle: error or the result of the undisturbed run, repeated operation equals the undisturbed result, no lock held, final tree and storage equal, no live allocation or base handle; ASan/UBSan")
C("C27", [Job("life", "c_life.cc", "life", fatfs=True), Job("life_noidx", "c_life.cc", "life", fatfs=True, config=NOIDX, workers=2), Job("life_noshared", "c_life.cc", "life", fatfs=True, config=NOSHARED, workers=2)],
  "Histories of 20 to 80 operations on one to three stacks of random kinds at once (every operation of the interface, mounting, unmounting, registrations that must fail or are undone: duplicate names, missing arguments, bad geometry, long roots, damaged images), some of them with a failing allocation, a failing lock initialisation or a faulted base VFS, with and without image index and shared path buffer; distinct = distinct (kind, operation, disturbance, result).",
  ["balanced", "histories", "refused", "odd_ok", "op_mount", "op_unmount", "op_open", "op_close", "op_open_dir", "op_close_dir", "failed_open", "failed_open_dir", "failed_mount", "failed_read", "failed_rename", "alloc_failures", "base_faults", "lock_failures", "unregister_unknown"] + ["odd_%d" % i for i in range(12)],
  "resource ledger checked after every operation: live allocations (allocator interposer), initialised locks (threading back end), open handles of the base VFS, file descriptors and held locks each attributed to the handle or object that holds them; ASan/UBSan")
C("C34", [Job("fields", "c_fields.cc", "fields", fatfs=True), Job("fields64", "c_fields.cc", "fields", fatfs=True, config=[("EVFS_FILE_OFFSET_BITS", "64")], workers=2), Job("fields_noidx", "c_fields.cc", "fields", fatfs=True, config=NOIDX, workers=2)],
  "Eleven kinds of file systems and shim stacks with a fixed tree and random changes, stored modification times from before 1970 to after 2038, working directories and spellings; every stat, listing and search gets a structure filled with random garbage; distinct = distinct (kind, call, declared fields, type, size).",
  ["masks", "stats", "listings", "entries", "names", "types", "sizes", "mtimes", "no_mtimes", "no_listings", "times", "relative", "dots", "writes", "make_dirs", "deletes"] + ["kind_" + k for k in ("mem", "stdio", "jail", "trace", "rotate", "tar", "tar_rsrc", "romfs", "romfs_rsrc", "fat", "deep")],
  "reference tree: every member the file system declares must be the stored name, size, type and time, every other must have been cleared; ASan/UBSan")
HOSTWRAP = ["-Wl,--wrap=" + x for x in ("stat", "fopen", "mkdir", "remove", "rename", "opendir", "fwrite", "fseek")]
C("C18", [Job("tsan", "c_conc.cc", mode="tsan", threads="pthread", extra=HOSTWRAP, fatfs=True, workers=4), Job("locks", "c_conc.cc", fatfs=True, defines=["CONC_MON"], extra=HOSTWRAP, workers=4), Job("c11", "c_conc.cc", threads="c11", extra=HOSTWRAP, fatfs=True, workers=2), Job("tsan_noidx", "c_conc.cc", "own,dyn", mode="tsan", threads="pthread", extra=HOSTWRAP, fatfs=True, config=NOIDX, workers=2), Job("tsan_noshared", "c_conc.cc", "own", mode="tsan", threads="pthread", extra=HOSTWRAP, fatfs=True, config=NOSHARED, workers=2)],
  "Two to four threads started together, with random pauses inside the base VFS and (job locks) at every lock operation: own = random histories of all operations on separate handles and files of one shared stack (13 kinds); cwd = set_cur_dir, get_cur_dir, stat, open, list and absolute on one shared working directory (7 kinds); registry = register, unregister, lookup, default and named calls on shared names; race = all threads create, make, delete, rename and append to the same names (what can be done once is done by exactly one; nothing appended is lost); clear = registration with threads that unregister everything; dyn = threads that mount, use and unmount file systems of their own; distinct = distinct interleavings of call starts and ends.",
  ["race_create", "race_make_dir", "race_delete", "race_rename", "race_make_path", "race_open_or_new", "race_append", "race_remove_dir", "events", "overlapping", "linearized", "registries", "registries_cleared", "clear_unregister_all", "world tar", "world tar_rsrc", "world romfs", "world romfs_rsrc", "world jail", "world trace", "world fat", "world stdio", "world jail on stdio", "world rotate on stdio", "world jail on trace on rotate on stdio", "cwd tar", "cwd tar_rsrc", "cwd romfs", "cwd romfs_rsrc", "cwd jail", "cwd fat", "dyn_mount", "dyn_unmount", "dyn_read", "dyn_list", "op_read", "op_write", "op_list", "op_open", "op_open_dir"],
  "ThreadSanitizer on pthread builds; recorded call and return histories compared with the sequential results or searched for a linearization (the library run sequentially is the specification); lock monitor in a custom threading back end (held locks, deadlock watchdog); ASan/UBSan on C11 threads",
  assumptions=["The kernel and the C library are not instrumented; the time zone is read once before the threads start.", "Objects looked up by name are not freed while other threads may still use them (the interface hands out plain pointers)."])
def MC(name, src, suites, workers, soft=24, fatfs=True, **kw):
    return Job("mc_" + name, src, suites, mode="memcheck", fatfs=fatfs, workers=workers, soft=soft, **kw)
C("C33", [MC("life", "c_life.cc", "life", 3), MC("faults", "c_faults.cc", "alloc,below,change", 3), MC("hostile", "c_hostile.cc", "tar,iter,rom,rotate", 3), MC("fat", "c_fat.cc", "fat_model,fat_full,fat_make,fat_fault,fat_hostile,fat_readonly", 4),
          MC("rotate", "c_rotate.cc", "append,array,plain,crash,fault", 3), MC("stdio", "c_stdio.cc", "bytes,hosterr,ns", 2), MC("tar", "c_tar.cc", "mount,iter", 2), MC("romfs", "c_romfs.cc", "mount", 2), MC("romfs_noindex", "c_romfs.cc", "mount", 1, config=NOIDX),
          MC("trace", "c_trace.cc", "trace", 1), MC("jail", "c_jail.cc", "contain,equiv", 2), MC("evfs", "c_evfs.cc", "copy,copy_args,mkpath,printf,names", 2), MC("reg", "c_reg.cc", "registry", 1, soft=12),
          MC("paths", "c_paths.cc", "norm_random,norm_manyseg,split_random,join,absolute", 2), MC("range", "c_range.cc", "append,copy,edit,token,convert", 2), MC("dhash", "c_dhash.cc", "map,helpers,probes", 2), MC("getopt", "c_getopt.cc", "parse,usage", 1, soft=12), MC("glob", "c_glob.cc", "glob,glob_long,find", 1, soft=12),
          MC("int", "c_int.cc", "integers,roots,fixed,si,curves,access", 1, soft=12, extra=["c_intu.c"]), MC("search", "c_search.cc", "search", 1, soft=12, extra=["c_bsearch.c"])],
  "The workloads of the other checks (histories on every kind of stack, allocation failures, failures below, damaged and changing images, FAT volumes, rotated logs with crashes, paths, ranges, tables, options) run without compiler instrumentation under memcheck for a share of their cases, with every allocation marked undefined; distinct = distinct cases of those workloads.",
  ["failures", "accepted", "rejected", "crash_points", "mounts_file", "mounts_memory", "joins", "op_mount", "op_read", "op_write", "images_checked"],
  "valgrind memcheck tracks every bit that was never written: an error is a branch, address or system call argument that depends on one, in the library or in the harness that looks at its results; the base VFS asks memcheck about every path, argument and byte it is given",
  assumptions=["The C library's own functions are trusted; code in libraries/fatfs is not judged itself (its long name comparison reads, without effect, behind the end of a name in its buffer), only what the wrapper and its callers do with its results."])
C("C29", [Job("search", "c_search.cc", "search,search_exhaustive", extra=["c_bsearch.c"])],
  "Random sorted arrays (empty to 2000, some to 200,000 items of 1 to 40 bytes, duplicates, ascending and descending, wide value ranges) with keys on, next to, before and beyond the items, and all small arrays of up to 5 (thorough 6) items with all keys; distinct = distinct (size, results, item size).",
  ["large_arrays", "exact", "nearest", "generated", "empty", "before", "beyond"],
  "linear-scan oracle with every argument of the comparison callback checked; exact-size buffers, ASan/UBSan")
