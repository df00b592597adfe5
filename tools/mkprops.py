#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Path normalization yields the canonical path, or an overflow error",
  "Normalizing a path gives its one canonical form: the root reduced to its minimal form, runs of separators merged and converted to the native one, '.' segments dropped, each '..' segment removed together with the segment before it (kept only at the front of a relative path, discarded at the root), no trailing separator, and every other segment - including names that merely begin with dots - kept unchanged and in order. "
  "The result does not depend on how many segments the path has or on whether the output overlays the input, and normalizing it again changes nothing. "
  "When the result and its terminator do not fit the output range an overflow error is returned, and no byte outside that range is ever written.",
  ["inputs"], "All path strings (separators, dots, long segments, any number of segments), POSIX and drive-letter roots, all output range sizes, separate and in-place output.",
  "The repository has no test of the path functions: the demo programs only normalize a handful of short paths on the way to opening files, never with more than 32 segments, tight buffers, or dotted names.",
  ["src/evfs_path.c", "src/evfs.c", "src/util/range_strings.c"],
  [("segment bitmask and its fallback for many segments", "src/evfs_path.c: evfs_vfs_path_normalize, path_normalize_long"), ("root reduction", "src/evfs_path.c: append_normalized_root")],
  ["evfs_path_normalize_ex()"])

p("C02", "Directory, file and extension parts of a path follow Python os.path",
  "For every path the directory part, the file-name part and the extension are the substrings that Python's os.path.dirname, basename and splitext would give (with both separator characters treated as separators). "
  "The returned ranges always lie inside the given string, also for empty paths, roots, and names that start or end with dots or separators. Scanning a path reports the segments after its root one by one, in order, then an error.",
  ["inputs"], "All path strings over separators, dots and ordinary characters, including the empty string and root-only paths.",
  "No test calls the extension function, and the others see only a few ordinary paths.",
  ["src/evfs_path.c"], [("scan back to the last separator or period", "src/evfs_path.c: evfs_path_basename, evfs_path_extname, evfs_vfs_path_dirname")],
  ["evfs_path_basename()", "evfs_path_dirname_ex()", "evfs_path_extname()", "evfs_vfs_scan_path()"])

p("C03", "Joining two paths gives head, separator and tail, or an overflow error",
  "Joining two paths produces exactly the head, one separator (none after an empty or root-only head) and the tail, NUL terminated, whether the operands are C strings or substrings of larger buffers and whether or not the output overlays the head. "
  "When that text and its terminator do not fit the output range or the maximum path length an overflow error is returned; success is never reported for a shortened result, and no byte outside the output range is written.",
  ["inputs"], "All head and tail strings and substrings, output ranges of every size around the boundary, overlapping and separate output.",
  "Only short joins into large buffers occur in the demo programs; neither the boundary sizes nor substring operands are exercised.",
  ["src/evfs_path.c", "src/evfs.c", "src/util/range_strings.c"], [("length check before concatenation", "src/evfs_path.c: evfs_vfs_path_join")],
  ["evfs_path_join_ex()", "evfs_path_join_str_ex()"])

p("C04", "Absolute paths are the normalized join of working directory and path",
  "Making a path absolute gives the canonical form of the current working directory joined with the path (or of the path itself when it is absolute already), on every VFS and for every overlap between input and output; on a VFS with drive letters a path like \"C:name\" is taken below the working directory, under its own letter. "
  "It either returns that path or an error: a working directory or result too long for the output range or for the maximum path length is an error, never a truncated path, and no byte outside the output range is written.",
  ["inputs", "histories"], "All relative and absolute paths, working directories of any length, output ranges of any size, separate, in-place and partially overlapping buffers.",
  "Tests convert a few short paths with roomy, separate buffers; the in-place and tight-buffer strategies are separate code paths that they never reach.",
  ["src/evfs_path.c", "src/evfs.c"], [("three buffer strategies (direct join, temporary, in-place swap)", "src/evfs_path.c: evfs_vfs_path_absolute, path_absolute_from_rel_overlap")],
  ["evfs_path_absolute_ex()"])

p("C05", "A jail never lets an operation reach outside its root",
  "Whatever paths a client passes to a jailed VFS - relative or absolute, with '..' in any position, any separators, any length, any working directory - every path that reaches the underlying VFS names the jail root or something below it. "
  "A path that cannot be represented is refused with an error before the underlying VFS is touched, and never silently becomes a different path; paths reported back to the client never reveal the location of the root.",
  ["inputs", "histories"], "All sequences of open, stat, delete, rename, make_dir, open_dir and set_cur_dir calls with hostile paths, all jail roots up to the path limit, nested jails.",
  "The jail demo performs a fixed sequence with a few well-behaved and one escaping path; containment has to hold for every path and working-directory history.",
  ["src/shim_jail.c", "src/evfs_path.c"], [("normalization of the client path before prefixing the root", "src/shim_jail.c: path translation")],
  ["recording base VFS below the jail"], None, [("cur_dir", "jail-relative working directory", "src/shim_jail.c")])

p("C06", "Inside its root a jail behaves like the underlying VFS",
  "Every operation on a jailed VFS has the result and the effect that the same operation on the corresponding path below the jail root has on the underlying VFS, including error codes, file contents and directory listings. "
  "The working directory starts at the jail's root, changes only when setting it succeeds on an existing directory, is reported as a normalized absolute path, and relative paths resolve against it.",
  ["inputs", "histories"], "All operation sequences over a tree of files and directories, relative and absolute paths, working-directory changes including failing ones.",
  "The demo touches one directory and prints results without comparing them with the underlying file system.",
  ["src/shim_jail.c"], [("jail path translation and working directory", "src/shim_jail.c")], ["jailed VFS against a second copy of the underlying VFS"])

p("C07", "Open files on the stdio VFS behave as byte arrays with a position",
  "For every sequence of reads, writes, seeks of all three origins, truncations, size and position queries, syncs, closes and reopens, a file on the stdio VFS returns the byte counts, data, positions and sizes that a plain byte array with a cursor and the documented open modes would give, and the host file holds the same bytes once it is synced or closed. "
  "A failed read, write, sync or close of the host file is reported as an error.",
  ["inputs", "histories", "fault_sequences"], "All operation sequences on one or several handles with all combinations of open flags, including host write failures.",
  "The demos write and read short files linearly; interleavings of buffered reads, writes, seeks and truncates are unbounded in number.",
  ["src/stdio_fs.c", "src/evfs.c"], [("stdio FILE wrapper", "src/stdio_fs.c: stdio__file_*"), ("offset conversion", "src/evfs.c: evfs__absolute_offset")], ["evfs_file_*() results and the host file in a scratch directory"])

p("C08", "Stdio namespace operations match the host file system",
  "Stat, existence tests, delete, rename, make-directory, directory listing (with and without the dot entries, and after a rewind) and working-directory operations on the stdio VFS report and change exactly what the corresponding host operations do: what succeeded is visible on the host, what failed left it unchanged, and every directory entry is reported exactly once with its type and, where offered, its size. "
  "Whatever the host refuses - missing files, existing directories, non-empty directories, missing permission and the like - is reported as an error and never as success.",
  ["inputs", "histories"], "All sequences of namespace operations over a small tree, including names that exist as the wrong kind of object.",
  "Tests only list one directory and never compare the listing with the host.",
  ["src/stdio_fs.c"], [("POSIX calls behind the VFS methods", "src/stdio_fs.c: stdio__stat, stdio__delete, stdio__rename, stdio__make_dir, stdio__open_dir")], ["evfs_*() results against the host directory"])

p("C09", "The trace shim changes nothing but its report",
  "A VFS seen through the trace shim returns the same results, data, error codes and side effects as the VFS below it for every operation and argument, including failures, and passes each operation down exactly once with unchanged arguments. "
  "Every traced operation is reported to the configured sink with its arguments and result, and no trace content can corrupt the operation, whatever the path or error.",
  ["inputs", "histories", "fault_sequences"], "All VFS, file and directory operations, with injected errors at any of them, all path contents (including formatting characters) and nested shims.",
  "The demos print traces of successful operations and only scan them for error words.",
  ["src/shim_trace.c"], [("forwarding methods", "src/shim_trace.c")], ["recording base VFS below the shim, report callback"])

p("C10", "A rotating log keeps an exact suffix of everything appended to it",
  "After any sequence of appends, closes, reopens and remounts with the same configuration, reading a rotated file from its start to its end gives exactly the last bytes of the concatenation of all data that was reported as written, and the reported size is the number of those bytes. "
  "Nothing is dropped before the configured capacity is needed: all data is kept while it fits in one chunk fewer than the configured number, at least that much is kept afterwards, and storage never grows beyond the configured number of chunks.",
  ["inputs", "histories", "configurations"], "All write-size sequences and chunk geometries, including sizes that end exactly on chunk boundaries and many wraps of the chunk ring, with closes and remounts at any point.",
  "The rotate demo writes one fixed pattern with one geometry and prints the result; exact boundary alignments and restart points are not sampled or compared.",
  ["src/shim_rotate.c"], [("chunk ring with generation bit and its recovery on open", "src/shim_rotate.c: rotate_state, chunk position calculation, append_new_chunk, trim")],
  ["data read back through the shim, chunk files on the base VFS"], None, [("start/end chunk and generation", "position of the ring", "src/shim_rotate.c: RotateState")])

p("C11", "A rotated file reads, seeks and trims like the data it holds",
  "Reads, seeks of every origin and position and size queries on a rotated file act on the retained data as on one contiguous byte array, across all chunk boundaries, also right after an unsynced append. "
  "Trimming removes exactly the requested number of whole-or-partial leading bytes rounded to the documented granularity, never data beyond it, and later appends and reads continue correctly; ordinary files opened through the rotate shim behave as on the VFS below.",
  ["inputs", "histories"], "All interleavings of append, read, seek, tell, size, trim, close and reopen for any geometry.",
  "The demo reads the log back once sequentially without comparing its contents.",
  ["src/shim_rotate.c"], [("mapping of logical offsets to chunks", "src/shim_rotate.c: rotate__file_read, rotate__file_seek, SET_ROTATE_TRIM")], ["evfs_file_*() results"])

p("C12", "A rotating log survives crashes and failed writes",
  "If the process stops between any two operations on the underlying VFS, or any one of those operations fails, then after a remount the rotated file opens and reading it gives a contiguous part of the appended data that ends no earlier than the last data whose write had been completed and synced, never foreign, duplicated or reordered bytes. "
  "A failed operation is reported to the caller in bounded time, and later appends work once the fault is gone.",
  ["crash_points", "fault_sequences", "histories"], "Every crash point between base operations and every single base-operation failure in sampled append histories, over several geometries.",
  "No test interrupts the shim or makes the underlying VFS fail.",
  ["src/shim_rotate.c"], [("chunk creation, deletion and geometry file ordering", "src/shim_rotate.c: append_new_chunk, open/recovery")], ["remounted image of the base VFS after each crash point"])

p("C13", "A mounted tar archive presents exactly the archive's contents",
  "Mounting any tar archive with ustar or GNU headers and without extension records for names, from a file of another VFS or from memory, presents exactly its files and directories: every stored path is found by every spelling of its normalized absolute path or relative to the working directory, with the type and size recorded in it and with exactly its bytes under every read and seek sequence, and nothing else exists besides the root directory. "
  "When a path is stored several times one stored version is presented consistently; archives read through the iterators yield every member once, in order, with its own data.",
  ["inputs", "histories"], "All well-formed archives (names up to and beyond the header field, prefix fields, empty files, directories, sizes around block boundaries), all read, seek and path-lookup sequences, several open handles.",
  "The tar demo mounts one fixed archive and prints a few results.",
  ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/tar_iter.c", "src/tar_iter_rsrc.c", "src/util/dhash.c"], [("name-to-header hash index", "src/tar_fs.c: build_index, src/tar_rsrc_fs.c"), ("header iteration", "src/tar_iter.c, src/tar_iter_rsrc.c")],
  ["evfs_*() results on archives written by Python's tarfile and an independent generator"])

p("C14", "A mounted romfs image presents exactly the image's tree",
  "Mounting any romfs image, from a file or from memory, presents exactly the tree it encodes, apart from names longer than the configured length: every file and directory is found by absolute and by working-directory-relative path with its size and type, file data is exact under every read and seek sequence, and each directory listing gives every entry once and in order, again after a rewind; an image that ends before the size its header declares is refused. "
  "Path resolution gives the same answer for every spelling of a path (extra separators, '.' and '..') and whether or not the optional path index is compiled in.",
  ["inputs", "configurations", "histories"], "All well-formed images (nesting, empty files and directories, hard links, names at the alignment boundaries), all lookups, reads and listings, file-backed and resource-backed, with and without fast index.",
  "The romfs demo opens one fixed image; equivalence of the two lookup strategies and two storage variants is never compared.",
  ["src/romfs_fs.c", "src/romfs_common.c", "src/util/dhash.c"], [("hash index or tree walk", "src/romfs_common.c: lookup"), ("resource and image readers", "src/romfs_fs.c")], ["evfs_*() results on generated images"])

p("C15", "Hostile archives, images and metadata are handled without memory errors",
  "Mounting, walking, listing and reading any byte sequence as a tar archive, romfs image or FAT image, or a rotated log with any chunk names and geometry data, never reads or writes outside the supplied data or the library's own objects, never has undefined behaviour, and always finishes. "
  "Input that cannot be mounted is rejected with an error and leaves nothing registered.",
  ["inputs"], "All byte sequences: mutated and truncated valid images, extreme sizes and offsets, cyclic links, missing terminators, corrupt geometry files.",
  "Tests mount only well-formed images made by standard tools.",
  ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/tar_iter.c", "src/tar_iter_rsrc.c", "src/romfs_fs.c", "src/romfs_common.c", "src/shim_rotate.c", "src/fatfs_fs.c"],
  [("bounds checks against image and resource size", "src/romfs_common.c, src/tar_iter*.c"), ("geometry validation", "src/shim_rotate.c")], ["AddressSanitizer, UndefinedBehaviorSanitizer, per-case CPU limit"])

p("C16", "Read-only file systems are never modified",
  "While a VFS is read-only - by nature as tar and romfs are, or because it was configured so - no operation on it creates, changes, truncates, renames or removes anything on the storage below, whatever open flags or operations are used, and each such attempt reports an error. "
  "Reading stays possible, and clearing the setting restores writing.",
  ["inputs", "histories", "configurations"], "All open flag combinations and all modifying operations on stdio, FatFs, tar and romfs volumes, with the setting toggled at any time.",
  "No test sets read-only mode.",
  ["src/stdio_fs.c", "src/fatfs_fs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c"], [("read-only flag checks", "src/stdio_fs.c, src/fatfs_fs.c: EVFS_CMD_SET_READONLY")], ["byte-exact snapshot of the storage before and after"])

p("C17", "The VFS registry always resolves names and the default correctly",
  "After any sequence of registrations and removals each registered name resolves to the one object registered first under it, an unregistered name does not, and as long as anything is registered there is exactly one default: the object most recently made default, replaced by another registered one when it is removed or demoted. "
  "Re-registering an object changes only its default status, every removal notifies the object exactly once, and calls without a usable VFS report an error.",
  ["histories"], "All sequences of register, unregister, unregister-all and lookups over several objects, with shared names and both default settings.",
  "The demos register one to three objects in a fixed order.",
  ["src/evfs.c"], [("linked list of objects and default pointer", "src/evfs.c: evfs_register, evfs_unregister")], ["evfs_find_vfs(), evfs_default_vfs_name(), unregister notifications"])

p("C18", "Concurrent use of the library is race-free and linearizable",
  "Threads that concurrently register, look up and remove VFS objects, or use separate handles, paths and working-directory operations on one shared VFS (jail, tar, romfs, rotate, stdio, FAT), cause no data race, and every operation returns what some sequential order of the operations would have returned: of several threads that create, remove or rename the same name exactly one succeeds, and concurrent appends lose nothing. "
  "No interleaving deadlocks, and every lock taken during an operation is released when it returns, on error paths too.",
  ["schedules"], "All interleavings of concurrent API calls by several threads, with yields injected at lock operations.",
  "All tests are single threaded.",
  ["src/evfs.c", "src/shim_jail.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_rotate.c", "src/fatfs_fs.c", "src/evfs_pthread.c", "src/evfs_c11_thread.c"],
  [("library and per-VFS locks", "LOCK/UNLOCK in src/*.c")], ["ThreadSanitizer, call/return histories, lock monitor in a custom threading back end"])

p("C19", "Glob matching and directory searches follow the pattern rules",
  "A name matches a glob pattern exactly when the documented rules say so: '*' any run and '?' any one character but never a separator, bracket sets with ranges and negation, everything else literal. "
  "A directory search reports, in directory order and exactly once, the entries that match and then reports completion; no pattern or name makes the matcher read outside either string or fail to finish.",
  ["inputs"], "All pairs of patterns and names, including malformed sets, bytes above 127 and separators.",
  "Tests use one or two patterns.",
  ["src/util/glob.c", "src/evfs.c"], [("backtracking matcher with character-set bitmap", "src/util/glob.c"), ("filtered directory iteration", "src/evfs.c: evfs_dir_find")], ["glob_match(), evfs_dir_find()"])

p("C20", "The hash table behaves as a map under every operation sequence",
  "After any sequence of inserts, updates, removals, lookups and resizes the hash table holds exactly the key-value pairs that a map would, each found by lookup and visited exactly once by iteration, for every key type, hash distribution and table size, with failed operations reported and leaving the contents as they were. "
  "Keys and values handed in are never modified, and every removed or replaced item is released exactly once through the configured destructor; a configured limit on the memory for the table is never exceeded.",
  ["inputs", "histories"], "All operation sequences with adversarial hashes (collisions, wrap-around), in-place and copied keys and values, user-supplied and grown storage.",
  "Archives in the tests hold a dozen names; removal, replacement and growth under collisions are never exercised.",
  ["src/util/dhash.c", "include/evfs/util/dhash.h"], [("Robin Hood probing with tombstones", "src/util/dhash.c")], ["dh_*() results, destructor calls"])

p("C21", "String-range operations never exceed their range and report truncation",
  "Copying, appending (with or without terminator), formatting, number conversion, padding, trimming, comparing and tokenizing on string ranges produce exactly the text the corresponding operation on unbounded strings would, or report truncation as documented, and the advanced range describes exactly the space left. "
  "No operation reads or writes outside the ranges and strings it was given, for any content, length or range size including zero and one.",
  ["inputs"], "All contents and sizes, all integer and fixed-point values, all operation sequences on one buffer.",
  "The helpers are only used indirectly with short strings and ample buffers.",
  ["src/util/range_strings.c", "src/util/intmath.c", "src/util/bsd_string.c"], [("bounded copy loops", "src/util/range_strings.c")], ["range_*() results and guard bytes around every buffer"])

p("C22", "Copying a file reports success only for a complete, identical copy",
  "Copying an open file to a new path succeeds exactly when the new file holds the complete contents of the source file, for every size, transfer buffer size and starting position of the source, within one VFS or across two. "
  "It never overwrites an existing file, and every read, write, allocation or close failure is reported as an error.",
  ["inputs", "fault_sequences"], "All file sizes around buffer boundaries, buffer sizes from one byte up, source positions, and a failure or short transfer at every underlying operation.",
  "Tests never call the copy function.",
  ["src/evfs.c"], [("copy loop", "src/evfs.c: evfs_copy_to_file_ex")], ["contents of the destination on the base VFS"])

p("C23", "Making a path creates every missing directory, or reports an error",
  "Making a directory path succeeds exactly when afterwards every prefix of it is a directory, and then has created only the missing ones; existing entries are never replaced or changed. "
  "A component that exists as something else than a directory, or any failing operation, is reported as an error; the given range and everything outside it is left unread and unmodified, so that a directory part of a longer path can be passed as a substring.",
  ["inputs", "fault_sequences"], "All paths (roots, repeated and trailing separators, substrings) over all trees, with faults at every underlying call.",
  "One demo creates one nested directory.",
  ["src/evfs.c"], [("segment-wise stat and create", "src/evfs.c: evfs_make_path_range_ex")], ["tree of the base VFS before and after"])

p("C24", "A FAT volume behaves as a file system and keeps its contents",
  "For every sequence of file, directory and working-directory operations a FAT image mounted on another VFS gives the results of a model file system, within the FAT naming and capacity limits, and after a sync or unmount and remount the same tree and contents are found again. "
  "Truncating to any size leaves exactly that many leading bytes and never changes a file that is already shorter, and running out of space is an error that damages nothing already stored. The image stays a consistent FAT volume, all its allocation tables equal. "
  "A directory listing gives each entry's kind, size and the time of its last change, to the two seconds FAT keeps, for every date FAT can hold (an earlier one reads as the first of 1980) and in every time zone. A file is not opened twice, removed or renamed while it is open.",
  ["inputs", "histories"], "All operation sequences on formatted images of several sizes and formats, at every date from 1980 to 2107, several files open at once, remounts at any point.",
  "No test exercises the FatFs wrapper at all.",
  ["src/fatfs_fs.c", "src/fatfs_image.c"], [("mapping of EVFS operations onto FatFs", "src/fatfs_fs.c"), ("block device on an image file", "src/fatfs_image.c")], ["evfs_*() results against a model, remounted image"])

p("C25", "Allocation failures are reported and leave everything consistent",
  "If any single memory allocation fails during any operation, the operation reports an error, nothing is leaked or freed twice, no lock stays held, nothing half-built stays registered, and existing data and handles stay usable. "
  "Repeating the operation when memory is available again succeeds as if the failure had not happened.",
  ["fault_sequences"], "Every allocation made by registration, open, directory, path, copy, make-path, formatted-output and index-building operations of every VFS and shim, failed one at a time.",
  "Tests never fail an allocation.",
  ["src/evfs.c", "src/evfs_path.c", "src/stdio_fs.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/romfs_common.c", "src/fatfs_fs.c", "src/fatfs_image.c", "src/util/dhash.c"],
  [("allocation checks and cleanup paths", "MEM_CHECK uses in src/*.c")], ["allocator interposer, lock monitor, replayed operation"])

p("C26", "Errors of the VFS below are reported by every layer above it",
  "When an operation of an underlying VFS fails or transfers fewer bytes than asked, every shim and image file system stacked on it reports an error or the true shorter count to its caller and never data or success it does not have. "
  "Afterwards no lock stays held, no handle of the underlying VFS is lost, and the layer works normally once the fault is gone.",
  ["fault_sequences"], "Every single failure or short transfer of every underlying operation during sampled workloads on jail, trace, rotate, tar, romfs and FAT layers.",
  "Tests run only on a healthy host file system.",
  ["src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c", "src/tar_fs.c", "src/tar_iter.c", "src/romfs_fs.c", "src/romfs_common.c", "src/fatfs_fs.c", "src/fatfs_image.c"],
  [("error checks after base operations", "src/*.c")], ["fault-injecting base VFS, lock monitor"])

p("C27", "Every resource acquired is released exactly once",
  "For any history of opening and closing files and directories and of registering and unregistering VFS objects - including failed opens and failed registrations - all memory, underlying handles and locks acquired by the library are released exactly once when the handle is closed or the object is unregistered, and nothing is used after that. "
  "A failed open leaves no handle and a failed registration leaves nothing registered.",
  ["histories"], "All histories of lifecycle operations on every kind of VFS and shim, including duplicate names and invalid arguments.",
  "Tests do not account for resources and never unregister after failures.",
  ["src/evfs.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/fatfs_fs.c", "src/stdio_fs.c"],
  [("unregister control command", "src/*.c: EVFS_CMD_UNREGISTER")], ["allocator accounting, open-handle count of the base VFS, lock monitor"])

p("C28", "Formatted output to a file writes exactly the formatted text",
  "Printing a formatted string or a plain string to an open file writes exactly the text the standard formatter produces, of any length, and returns the number of bytes written or an error. "
  "Every status and command code has exactly its own name, and any other value gives the unknown marker.",
  ["inputs"], "All format strings and arguments including very long and empty results, all integer codes.",
  "Tests print a few short strings without reading them back.",
  ["src/evfs.c"], [("measure, allocate, print", "src/evfs.c: evfs_file_printf, evfs_err_name, evfs_cmd_name")], ["file contents on the base VFS"])

p("C29", "Sorted searches return the right position for every array and key",
  "For every sorted array, element size and key the exact search finds an equal element exactly when there is one, and the nearest searches return the index of the element closest to the key in the requested direction. "
  "Keys outside the range and empty arrays give the documented result, and no element outside the array is examined.",
  ["inputs"], "All sorted arrays with and without duplicates, all keys, sizes from zero up.",
  "The search helpers are not called by any test.",
  ["src/util/search.c", "include/evfs/util/search.h"], [("binary and linear search", "src/util/search.c")], ["search_*() results, comparison callback arguments"])

p("C30", "Command-line option parsing follows the getopt_long rules",
  "For every option specification and argument vector the re-entrant option parser reports the options in order, their arguments (attached, in the next element, or after '=' for long options; optional short arguments also from the next element when it does not start with '-'), errors (':' for a missing argument when the specification starts with ':', otherwise '?') and the position of the first operand according to the getopt_long rules with exact long names. "
  "Without permute_args parsing stops at the first operand and the vector is untouched; with it the operands end up after the options in their order and no argument is lost or modified. Nothing outside the vector and its strings is read, and parsing keeps no hidden state: interleaved parses of several vectors do not affect each other. "
  "The generated usage text names every option and operand of any specification in any width, with the arguments they take and, in the summary, whether they are required.",
  ["inputs"], "All short and long option specifications (required, optional, no argument) and argument vectors including '--' and operands in any place.",
  "The demo programs parse two or three fixed command lines.",
  ["src/util/getopt_r.c", "include/evfs/util/getopt_r.h"], [("re-entrant parser state", "src/util/getopt_r.c")], ["getopt_r(), getopt_long_r() results", "print_command_usage() output"])

p("C31", "A littlefs volume behaves as a file system and keeps its contents",
  "For every sequence of file, directory and working-directory operations a littlefs image mounted on another VFS gives the results of a model file system, and after unmount and remount the same contents are found again.",
  ["inputs", "histories"], "All operation sequences on formatted littlefs images.",
  "The littlefs library sources are not part of this checkout, so nothing of it is built or tested.",
  ["src/littlefs_fs.c", "src/littlefs_image.c"], [("mapping of EVFS operations onto littlefs", "src/littlefs_fs.c")])

p("C32", "Integer mathematics and unaligned accesses give the mathematical result",
  "For every argument whose result can be represented, without undefined behaviour: rounding to a power of two, integer logarithms of base 2, 10 and any base, fixed-point to integer conversion, decimal parts of fixed-point numbers with their adjustment to fewer places, and SI scaling with its prefix give the exact result, rounded half away from zero where digits are dropped; "
  "fixed-point binary logarithms are within 4 units, square roots within 1 unit (exact for integer squares), linear and quadratic Bezier interpolation within 4 units, and searching an ascending Bezier curve ends with a parameter whose value is within 12 units. "
  "Unaligned loads and stores of 16, 32 and 64-bit integers in native, big and little-endian order, as functions, C11 generics and C++ templates, use exactly the bytes of the integer and return every value that was stored.",
  ["inputs"], "All integers, scales, exponents, places, curve points and alignments.",
  "No test calls these helpers with anything but small fixed numbers; they underlie number formatting and the decoding of images.",
  ["src/util/intmath.c", "include/evfs/util/intmath.h", "include/evfs/util/unaligned_access.h"], [("fixed-point and SI conversion", "src/util/intmath.c"), ("byte order", "include/evfs/util/unaligned_access.h")], ["return values", "bytes written by the set functions"])

p("C33", "Nothing the library does depends on memory that was never written",
  "Every result the library returns (status codes, counts, positions, names, directory information, and the bytes it places in a caller's buffer as far as it reports them), every decision it takes, and every path, argument and byte it hands to the VFS below or to the host depends only on its arguments and on stored data: never on uninitialised memory. "
  "This holds for every operation of every file system and utility, at the ends of files, with damaged images, and on every error path.",
  ["inputs", "faults"], "All histories of operations, images, and failures of allocations and of the VFS below.",
  "Uninitialised memory usually happens to hold harmless values in a short test run.",
  ["src/evfs.c", "src/evfs_path.c", "src/shim_rotate.c", "src/shim_jail.c", "src/shim_trace.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/romfs_common.c", "src/fatfs_fs.c", "src/stdio_fs.c", "src/util/range_strings.c", "src/util/dhash.c"],
  [("handles and scratch buffers from evfs_malloc", "src/*.c"), ("structures on the stack", "src/*.c")], ["branches, addresses, system call arguments, bytes given to the base VFS, returned values"])

p("C34", "File information is valid where declared and zero everywhere else",
  "Every file system answers the queries for its valid information fields (EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS), directly and through every shim, and keeps to the answer: whatever the caller's EvfsInfo held before, after a successful evfs_stat, evfs_dir_read or evfs_dir_find each declared member (name, size of a file, modification time, type) is the stored one and each member that is not declared is 0. "
  "stat always declares the size and the type, the listing of a directory always the name and the type, and a file system without directories declares nothing for them.",
  ["inputs", "histories"], "All trees, paths, spellings, working directories, file systems and shims, and all contents of the structure before the call.",
  "Tests start with cleared structures and look only at the members they expect; callers choose what to trust by the declared fields.",
  ["src/evfs.c", "src/stdio_fs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/fatfs_fs.c", "src/shim_jail.c", "src/shim_rotate.c", "src/shim_trace.c", "doc/rst/api/library.rst"],
  [("field queries", "src/*_fs.c *__vfs_ctrl"), ("information", "src/*_fs.c *__stat, *__dir_read")], ["EvfsInfo after every call", "field masks"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
    for x in P: assert len(x["title"]) <= 80, x["id"]
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
