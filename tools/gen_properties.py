#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable and diffable)."""
import json, os
P = []
S = "stable-fs/src/"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    e = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S+f for f in files],
                          mechanism=[dict(name=n, where=S+w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        e["anchors"]["state"] = [dict(name=n, meaning=m, where=S+w) for n, m, w in state]
    P.append(e)

p("C01", "A read returns exactly what was last written there",
  "Reading any range of a regular file returns, byte for byte, the most recent data written to each position, zeros for positions below the end of file that were never written, and nothing past the end of file; the file size is always the largest end offset written (or set). This holds for every chunk layout and chunk size, whatever offsets, lengths, overlaps and order the writes and reads have.",
  ["histories", "inputs", "configurations"],
  "every sequence of writes/reads/seeks at and around page, chunk and word boundaries, on every backend (stable V1 chunks, stable V2 chunks of 4K..64K, transient)",
  "Unit tests write a handful of fixed patterns in fixed order; the chunk arithmetic, hole handling and the cached chunk pointers interact across all offset/length/order combinations.",
  ["storage/stable.rs", "storage/transient.rs", "storage/chunk_iterator.rs", "storage/ptr_cache.rs", "runtime/file.rs", "runtime/structure_helpers.rs"],
  [("chunk iteration and zero fill for missing chunks", "storage/stable.rs: write_chunks_v2, read_chunks_v1, read_chunks_v2"),
   ("chunk pointer cache (existing and missing chunks)", "storage/ptr_cache.rs: add_range, add"),
   ("chunk split of a V1/transient write", "runtime/structure_helpers.rs: get_chunk_infos")],
  ["FileSystem::read/read_vec_with_offset/write/write_vec_with_offset", "FileSystem::metadata size"])

p("C02", "Resizing keeps the kept prefix and never resurrects cut data",
  "Setting a file's size, or truncating it when opening, leaves every byte below the new size unchanged, makes everything at or past the new size unreadable, and bytes exposed again by a later growth (by resizing or by writing further out) read as zero. This holds for any sequence of shrinks, growths and writes, on every chunk layout, including files whose data has holes.",
  ["histories", "inputs", "configurations"],
  "every sequence of set-size / open-with-truncate / write / read around chunk boundaries, per backend and chunk size",
  "Tests resize to a few unaligned sizes once; losing or resurrecting bytes depends on where old size, new size and holes fall relative to chunk boundaries and on what the pointer cache remembers.",
  ["storage/stable.rs", "storage/transient.rs", "runtime/file.rs", "fs.rs"],
  [("removal of chunks above the new size and zeroing of the tail", "storage/stable.rs: resize_file_internal; storage/transient.rs: resize_file/put_metadata"),
   ("truncate on open", "runtime/file.rs: truncate"),
   ("pointer cache invalidation on shrink", "storage/stable.rs: put_metadata")],
  ["FileSystem::set_file_size", "OpenFlags::TRUNCATE", "reads after growth"])

p("C03", "Files are isolated: no operation leaks into another file's bytes",
  "An operation on one file never changes the content, size or attributes of any other file, and no byte that once belonged to a removed, replaced, truncated or different file ever becomes readable through another file. Storage freed by one file may be reused by another only with this guarantee intact.",
  ["histories", "configurations"],
  "every interleaving of create/write/sparse-write/shrink/remove/replace over several files that force the storage allocator to recycle space",
  "Leaks need a specific free-then-reuse order (often with a sparse write or a metadata record landing in a recycled chunk); tests never check the other files after such histories.",
  ["storage/allocator.rs", "storage/stable.rs", "storage/metadata_provider.rs", "storage/ptr_cache.rs"],
  [("free list of chunks", "storage/allocator.rs: allocate, free"),
   ("zero fill of a freshly allocated chunk around the written part", "storage/stable.rs: write_chunks_v2"),
   ("pointer cache cleared when a file's chunks are freed", "storage/metadata_provider.rs: remove_metadata")],
  ["content of all files after every history"])

p("C04", "Everything survives an upgrade, at any point of a history",
  "Re-opening the file system on the same stable memory after any completed operation (as a canister upgrade does) shows exactly the same tree, names, file contents, sizes, link counts, timestamps, size limits and attributes as just before, and operations carried out after the re-opening have the same effects as if it had not happened. Only open descriptors, active memory mounts and the chosen chunk type for new files are lost.",
  ["histories", "crash_points"],
  "every operation sequence up to the bound with a re-open inserted at every position (including several), for each chunk layout and memory-manager bucket size",
  "Upgrade tests re-open once after one fixed history; what matters is that every piece of state reaches stable memory after each single operation, whatever was cached.",
  ["storage/stable.rs", "storage/metadata_provider.rs", "storage/allocator.rs", "fs.rs"],
  [("write-through of header, entries, metadata chunk, chunk pointers, allocator words", "storage/stable.rs, storage/metadata_provider.rs: put_metadata, storage/allocator.rs"),
   ("re-initialisation of every structure from its memory", "storage/stable.rs: new_with_custom_memories")],
  ["StableStorage::new on the same memory", "complete listing, content and metadata before and after"])

p("C05", "The namespace is always one consistent tree",
  "After any sequence of operations the namespace is a tree rooted at the root directory in which every name in a directory is unique and resolves to exactly the object that was created, linked or renamed there; creating an existing name, removing a missing one, or removing a non-empty directory is refused. Each directory's reported size equals its number of entries, and listing a directory shows exactly the names that can be opened in it, with the right type.",
  ["histories", "inputs"],
  "every sequence of create file/create directory (flat and nested paths)/open with every flag combination/remove over a small set of names and directories",
  "Tests check fixed trees after fixed histories; agreement between listing, lookup index, name cache, sizes and types must hold after every history.",
  ["runtime/structure_helpers.rs", "runtime/dir.rs", "fs.rs", "filename_cache.rs", "storage/stable.rs"],
  [("path creation", "runtime/structure_helpers.rs: create_path, create_dir_entry, add_dir_entry"),
   ("entry removal", "runtime/structure_helpers.rs: rm_dir_entry"),
   ("name to node cache cleared on removal", "filename_cache.rs; runtime/structure_helpers.rs: find_node"),
   ("two synchronized entry maps", "storage/stable.rs: put_direntry, rm_direntry")],
  ["FileSystem::open/mkdir/remove_file/remove_dir/with_direntries/get_direntry/metadata"])

p("C06", "Every spelling of a path resolves to the same object",
  "Path resolution is lexical: empty and '.' components are ignored, '..' cancels the component before it, and a path that is absolute or would climb above the directory it starts from is refused; any two spellings that normalise to the same components name the same object for every operation. A component resolves only inside the directory reached so far, matching the complete name byte for byte (names up to 255 bytes).",
  ["inputs", "histories"],
  "all path strings over a small component alphabet up to a length bound, from root and from sub-directory descriptors, before and after every kind of namespace change",
  "A dozen spellings are tested on the parser alone; resolution through the name cache, the lookup index and each operation is a product of spellings and histories.",
  ["runtime/structure_helpers.rs", "filename_cache.rs", "storage/types.rs", "fs.rs"],
  [("lexical normalisation", "runtime/structure_helpers.rs: get_path_parts"),
   ("walk by entry lookup", "runtime/structure_helpers.rs: find_node_with_index, find_entry_index"),
   ("cache keyed by raw path spelling", "runtime/structure_helpers.rs: find_node")],
  ["open/open_metadata/mkdir/remove/rename/link with every spelling"])

p("C07", "Hard links share one file, and the last unlink removes it",
  "All hard links of a file are equal names for the same object: content, size and attributes written through one are seen through every other, and the link count always equals the number of names. Removing or replacing one name leaves the others fully usable, and the file's data disappears only with its last name; directories cannot be hard-linked.",
  ["histories"],
  "every sequence of link/unlink/link-over-existing/rename/write over several names in several directories, with and without open descriptors",
  "Tests cover one link and one unlink; counts go wrong only after chains of link, replace and rename, or when a link replaces another name of the same file.",
  ["runtime/structure_helpers.rs", "fs.rs", "runtime/dir.rs"],
  [("link count update on link and unlink", "runtime/structure_helpers.rs: create_hard_link, rm_dir_entry"),
   ("data removal when the count reaches zero", "runtime/dir.rs: remove_file")],
  ["metadata link_count", "reads through every name"])

p("C08", "Rename moves exactly one object, atomically, keeping the tree intact",
  "A successful rename makes the object available under the new name only, with identity, content, attributes and (for a directory) its whole subtree unchanged; an existing compatible destination is replaced and no other name changes. A rename that is refused changes nothing, a rename onto the same object changes nothing, and a directory is never moved into itself or below itself.",
  ["histories", "inputs"],
  "every sequence of renames between files and directories at several depths, from several base descriptors, onto free, occupied, identical and descendant destinations",
  "Tests rename to fresh names; self-renames, replaced destinations, moves below oneself and open or mounted objects are input and history combinations they never reach.",
  ["fs.rs", "runtime/structure_helpers.rs"],
  [("link the new name, then unlink the old", "fs.rs: rename"),
   ("replacement of an existing destination", "runtime/structure_helpers.rs: create_hard_link")],
  ["whole tree, contents and link counts after every rename"])

p("C09", "A refused operation leaves no trace",
  "An operation that returns an error leaves files, directories, attributes, descriptors, cursors and storage use exactly as they were (a multi-buffer write refused by a size limit may keep its leading complete buffers, and a recursive removal its already removed children). In particular a failed creation, link, rename, mount or removal leaves no partial entry, orphaned object or half-applied attribute.",
  ["histories", "inputs"],
  "every reachable small state crossed with every operation of an error-provoking alphabet (bad names, wrong types, busy, limits, missing parents, bad descriptors)",
  "Tests check that the error is returned, almost never that nothing else changed, and only in one state each.",
  ["runtime/structure_helpers.rs", "fs.rs", "storage/stable.rs"],
  [("checks before mutation", "runtime/structure_helpers.rs: create_hard_link, create_path, rm_dir_entry"),
   ("validation of metadata updates", "storage/stable.rs: validate_metadata_update"),
   ("mount/store error handling", "storage/stable.rs: mount_node, store_mounted_memory")],
  ["complete observation before and after each refused operation"])

p("C10", "Descriptors are unique, and each keeps pointing at its own object",
  "Opening returns a descriptor number that is not in use, and until it is closed or renumbered that number denotes exactly the opened object, whatever other descriptors are opened, closed or renumbered and whatever happens to the object's name. Renumbering moves a descriptor to the chosen number, closing what was there; using a number that is not open is an error, and the root descriptor can be neither closed nor replaced.",
  ["histories", "inputs"],
  "every sequence of open/close/renumber (to free, freed, future, open and reserved numbers) and use of descriptors up to the bound",
  "Number reuse after renumbering depends on the exact order of closes and opens; tests cover two or three such orders.",
  ["runtime/fd.rs", "fs.rs"],
  [("free number list and next number", "runtime/fd.rs: open, close, renumber"),
   ("open counts per object", "runtime/fd.rs: inc_node_refcount, dec_node_refcount")],
  ["descriptor numbers, get_stat, metadata and reads through every open descriptor"])

p("C11", "Cursor, seek, positional and vectored I/O follow POSIX rules",
  "Each descriptor has its own cursor, advanced only by sequential reads and writes by exactly the number of bytes transferred and set only by seek; positional reads and writes never move it. Seeking from start, current position or end yields exactly the requested position or is refused without moving, and a vectored transfer equals the same bytes transferred through one contiguous buffer.",
  ["histories", "inputs"],
  "every sequence of seek (all origins, offsets around 0, the size and beyond), read, write, positional and vectored variants over one or two descriptors of the same file",
  "Tests use a few seeks on one descriptor; combinations of cursor past the end, two descriptors and empty buffers are untested.",
  ["runtime/file.rs", "fs.rs"],
  [("cursor arithmetic", "runtime/file.rs: seek, read_with_cursor"),
   ("vectored loops", "fs.rs: read_vec, write_vec, read_vec_with_offset, write_vec_with_offset")],
  ["tell, returned counts, data"])

p("C12", "Rights and append mode of a descriptor are always enforced",
  "A descriptor without the read (write) right can never read (write or resize) the file through any of the reading, writing or size-setting calls, while other descriptors of the same file are unaffected, and changing a descriptor's flags or rights takes effect immediately and for that descriptor only. A descriptor in append mode writes every buffer at the current end of file, wherever its cursor is and however the file was grown or cut by others.",
  ["histories", "inputs"],
  "every combination of rights and flags at open and by later change, over sequences of reads, writes, positional writes and resizes through several descriptors",
  "Only a few right/flag combinations are tested with single calls.",
  ["fs.rs", "runtime/file.rs", "runtime/types.rs"],
  [("right checks", "fs.rs: read, read_vec*, write_vec*, set_file_size"),
   ("append offset", "fs.rs: write_vec, write_vec_with_offset"),
   ("stat update", "fs.rs: set_stat")],
  ["results and effects of every I/O call"])

p("C13", "A file never exceeds its size limit",
  "Once a size limit is set on a file, no write, resize or attribute update can make the file larger than the limit, and a refused one changes neither size nor stored data (except leading complete buffers of a multi-buffer write); operations within the limit are unaffected. The limit belongs to the file (all names and descriptors), survives re-opening the file system, and setting a limit below the current size is refused.",
  ["histories", "inputs"],
  "every sequence of set-limit/write/vectored write/append/resize around the limit through several names, with re-opens, for regular and mounted files, on every backend",
  "Tests set one limit and write past it once.",
  ["fs.rs", "storage/stable.rs", "storage/transient.rs"],
  [("limit check on write", "storage/stable.rs: write; storage/transient.rs: write"),
   ("limit check on metadata update", "validate_metadata_update")],
  ["metadata size and limit, write results, content"])

p("C14", "A mounted memory file mirrors its memory byte for byte",
  "While a memory is mounted on a file, reading the file returns exactly the memory's bytes within the file size (including bytes changed directly in the memory), and writing the file changes exactly the corresponding memory bytes and grows the memory as needed, through every name and descriptor of the file. The host file's own content is untouched by all of this and reappears unchanged after unmounting.",
  ["histories", "inputs"],
  "every sequence of mount/unmount, file reads/writes/resizes at page boundaries and direct memory writes, over files with and without prior content and links",
  "Tests mount once and write a few bytes; interplay with host content, links, resize and remount order is untested.",
  ["storage/stable.rs", "storage/transient.rs", "fs.rs", "storage/metadata_provider.rs"],
  [("dispatch to the mounted memory", "storage/stable.rs: read, write, write_mounted"),
   ("separate metadata record while mounted", "storage/metadata_provider.rs: get_metadata, put_metadata")],
  ["file reads versus raw memory bytes", "host content after unmount"])

p("C15", "Mount size policies, transfer and remount behave as declared",
  "Mounting gives the file the size its policy promises (explicit, whole memory pages, or the size of the previous mount when it still fits), and that remembered size survives unmounting and re-opening the file system. Initialising copies exactly the host file into the memory, storing copies exactly the memory file back to the host, in both cases with equal size, and the mount state changes only by mounting, unmounting or re-opening.",
  ["histories", "configurations"],
  "every sequence of mount (each policy)/unmount/initialise/store/write/re-open with memories of 0..3 pages and host files around 64 KiB transfer boundaries",
  "The policy function is tested alone; its use across remounts, upgrades, transfers and failures is not.",
  ["storage/stable.rs", "storage/transient.rs", "storage/types.rs", "fs.rs"],
  [("policy evaluation", "storage/types.rs: get_mounted_file_size"),
   ("mount, init, store", "storage/stable.rs: mount_node, init_mounted_memory, store_mounted_memory")],
  ["metadata size after mount", "memory bytes and host bytes after transfer"])

p("C16", "Storage is conserved: nothing leaks, nothing is shared twice",
  "At every moment each unit of data storage handed out belongs to exactly one live file or directory or is available for reuse, and every stored object is reachable from the root. Hence removing, truncating or replacing files gives their space back and any history that returns to an earlier content can be repeated forever without the stable memory growing.",
  ["histories", "configurations"],
  "every operation sequence up to the bound (create, write, shrink, remove, link, rename-over, nested removal, mount), checked by an independent decoder of the raw stable memory",
  "Leaks and double use are invisible to functional assertions; the tests only look at the allocator alone or at single removals.",
  ["storage/allocator.rs", "storage/stable.rs", "storage/metadata_provider.rs", "runtime/structure_helpers.rs", "runtime/dir.rs"],
  [("chunk allocation and release", "storage/allocator.rs"),
   ("chunk removal on shrink and on file removal", "storage/stable.rs: resize_file_internal; storage/metadata_provider.rs: remove_metadata")],
  ["raw stable memory decoded after every history"],
  [("allocator words", "free list length, high-water mark, free pointers", "storage/allocator.rs"),
   ("chunk pointer map", "(object, chunk index) to address", "storage/stable.rs")])

p("C17", "Directory listing is complete and can be resumed anywhere",
  "Listing a directory from the beginning yields '.' and '..' followed by every entry exactly once with its name, type and object, and stopping after any entry and resuming from the next reported position yields the rest with nothing lost or repeated. An entry keeps its position while other entries are added or removed, and looking an entry up by its position returns the same entry as the listing.",
  ["histories", "inputs"],
  "every history of creates/removes/renames followed by every split of the listing into pages, from every resume position including the special ones",
  "Tests list small fixed directories from the start.",
  ["storage/stable.rs", "storage/transient.rs", "fs.rs"],
  [("ordered iteration from an index with synthetic dot entries", "with_direntries"),
   ("index assignment", "new_direntry_index")],
  ["with_direntries, get_direntry"])

p("C18", "Memory images of earlier versions open with all their data",
  "A stable memory image written by an earlier version of the library opens with every name, content, size and attribute it held, and every operation then works on those old files and directories as on new ones. This includes images without the name lookup index, with per-file attributes stored in the older location or encoding, with files of the older chunk layout or of unrecorded layout, with the older allocator marker and with a pending mounted-file record.",
  ["configurations", "histories"],
  "a family of images (produced by the pinned original version and synthesised in each older layout) crossed with every operation sequence up to the bound and re-opens",
  "The old images the tests refer to are missing here and cover one fixed history each.",
  ["storage/stable.rs", "storage/metadata_provider.rs", "storage/allocator.rs", "storage/types.rs", "runtime/structure_helpers.rs"],
  [("fallbacks for absent newer structures", "storage/metadata_provider.rs: get_metadata; runtime/structure_helpers.rs: find_entry_index; storage/stable.rs: use_v2"),
   ("legacy journal recovery", "storage/stable.rs: init_size_from_cache_journal"),
   ("accepted markers", "storage/allocator.rs: new")],
  ["tree and contents after opening, and after further operations"])

p("C19", "All storage backends behave the same",
  "Any sequence of file system calls gives the same results (values and success or failure) and leaves the same visible tree, contents and attributes whether it runs on stable storage with either chunk layout and any chunk size, or on transient storage. The choice of backend shows only in persistence across re-opening, in the reported chunk layout and in capacity.",
  ["histories", "configurations"],
  "every operation sequence up to the bound run in lock-step on all backend configurations, compared with each other",
  "A few tests are repeated per backend with the same fixed inputs; nothing compares backends on arbitrary histories.",
  ["storage/transient.rs", "storage/stable.rs", "storage.rs"],
  [("common storage interface", "storage.rs: Storage"), ("separate implementations", "storage/stable.rs, storage/transient.rs")],
  ["results and complete observation per backend"])

p("C20", "Attributes and timestamps change only when and as requested",
  "A newly created file or directory carries the creation time given, for all three timestamps, and an object's identity and type never change; afterwards each timestamp changes only through an explicit request for that object and then holds exactly the requested value, across every other operation and re-opening. Replacing attributes wholesale is accepted only if it keeps identity and type and respects the size limit, and otherwise changes nothing.",
  ["histories", "inputs"],
  "every sequence of attribute updates interleaved with writes, resizes, links, renames, creations in the same directory and re-opens",
  "Tests set one time and read it back.",
  ["fs.rs", "storage/stable.rs", "storage/metadata_provider.rs", "runtime/structure_helpers.rs"],
  [("read-modify-write of the attribute record", "fs.rs: set_accessed_time, set_modified_time, set_metadata, set_file_size"),
   ("attribute cache and record", "storage/metadata_provider.rs")],
  ["metadata of every object after every operation"])

p("C21", "Caches and size thresholds are invisible",
  "Behaviour does not depend on what happens to be cached or on how many objects exist: with more names, objects or file chunks than any internal cache or batch holds, and at the exact point where a cache fills up or is dropped, every call returns the same result as on a freshly opened file system. Directories with many entries and files spanning many chunks or memory regions behave like small ones.",
  ["histories", "configurations"],
  "every short operation sequence started from states that sit just below, at and just above each capacity (names, attributes, chunk pointers, prefetch window, allocation bucket)",
  "Cache capacities are tested on the cache type alone; no test mutates the file system at the moment of eviction.",
  ["filename_cache.rs", "storage/ptr_cache.rs", "storage/metadata_provider.rs", "storage/chunk_iterator.rs"],
  [("drop-all eviction", "filename_cache.rs: add; storage/ptr_cache.rs: add; storage/metadata_provider.rs: update"),
   ("bounded prefetch", "storage/ptr_cache.rs: add_range")],
  ["results versus reference model; results versus freshly opened instance"])

p("C22", "No argument can trap the file system",
  "Whatever offsets, sizes, seeks, descriptor numbers, listing positions, limits, names or paths a caller passes, every call returns a value or an error: it never panics, overflows, loops forever or exhausts the stack. Extreme but accepted values behave according to the same rules as ordinary ones, and requests beyond the supported maximum file size are refused.",
  ["inputs", "histories"],
  "every sequence up to the bound over an alphabet of boundary arguments (0, 1, 2^31, 2^32 +-1, maximum file size +-1, 2^63, 2^64-1, empty and over-long names, deep paths), per backend",
  "Tests use ordinary values; a trap depends on the exact argument and state.",
  ["fs.rs", "runtime/file.rs", "runtime/fd.rs", "storage/stable.rs", "storage/transient.rs", "storage/ptr_cache.rs", "runtime/structure_helpers.rs"],
  [("range checks and arithmetic", "storage/stable.rs: write, read; runtime/file.rs: seek"),
   ("reserved chunk and entry indices", "storage/types.rs")],
  ["no panic, abort or hang; results versus reference model"])

p("C23", "The file system stays within its own memory regions",
  "A file system attached to a range of memory regions never reads or writes any region outside that range, so several file systems and other data can share one memory manager without influencing each other. Ranges that are too small or out of bounds, and memory holding a file system of an unsupported version or with an unknown allocator marker, are rejected before anything is modified.",
  ["configurations", "histories"],
  "every operation sequence up to the bound run on two file systems plus foreign data sharing one memory manager, every range in and around the valid bounds, and corrupted version or marker values",
  "Tests attach one instance to one range.",
  ["storage/stable.rs", "storage/allocator.rs"],
  [("fixed offsets from the range start", "storage/stable.rs: new_with_memory_manager"),
   ("range and version checks", "storage/stable.rs: new_with_memory_manager, new_with_custom_memories; storage/allocator.rs: new")],
  ["content of neighbouring regions and of the other file system"])

p("C24", "Recursive removal removes the subtree, and only the subtree",
  "Recursively removing a path removes that object and everything below it, gives back its storage and affects nothing else: other names of hard-linked files below it keep working. If something inside is busy the call fails, the busy object and its parents stay, everything outside is untouched and the remaining tree is consistent.",
  ["histories", "inputs"],
  "all small trees (shapes, links, open descriptors, mounted files) up to the bound crossed with recursive removal of every path spelling",
  "Two fixed trees are tested.",
  ["fs.rs", "runtime/structure_helpers.rs"],
  [("recursive walk with descriptors", "fs.rs: remove_recursive")],
  ["whole tree, contents, link counts, storage accounting, descriptors"])

p("C25", "Chunk configuration never affects existing files",
  "Choosing the chunk layout only affects files created afterwards; every file keeps working in the layout it was created with, mixed layouts coexist, and new files record the chosen layout. The chunk size can be changed only while nothing is stored, is otherwise refused without effect, and the size in force is kept across re-opening.",
  ["histories", "configurations"],
  "every sequence of layout/size changes interleaved with file operations and re-opens",
  "Tests configure once at start.",
  ["storage/stable.rs", "storage/allocator.rs", "storage/metadata_provider.rs"],
  [("layout recorded per file", "runtime/structure_helpers.rs: create_dir_entry; storage/stable.rs: use_v2"),
   ("chunk size guarded by high-water mark", "storage/allocator.rs: set_chunk_size")],
  ["content of all files, chunk_size(), metadata chunk_type"])

p("C26", "Objects in use cannot be removed",
  "The last name of a file or directory that has an open descriptor, and any name of a file with a mounted memory, cannot be removed or replaced by any operation; the attempt fails and the descriptor or mount keeps working. As soon as the last descriptor is closed or the memory unmounted, removal succeeds.",
  ["histories"],
  "every sequence of open/close/renumber/mount/unmount interleaved with remove, replace-by-rename, replace-by-link and recursive removal",
  "Open counts are updated in many places (open, close, renumber, read, write, seek re-inserting the descriptor); tests cover one open and one close.",
  ["runtime/fd.rs", "runtime/structure_helpers.rs", "fs.rs"],
  [("open counts per object", "runtime/fd.rs: insert, inc_node_refcount, dec_node_refcount"),
   ("busy checks", "runtime/structure_helpers.rs: rm_dir_entry")],
  ["removal results; use of the descriptor or mount afterwards"])

p("C27", "Running out of memory never corrupts silently",
  "If the underlying memory cannot grow, the call in progress either completes with its full documented effect, or reports an error or traps; it never reports success with data missing. After a trap is rolled back by the platform, or after an error, all data stored before is intact and the file system keeps working.",
  ["fault_sequences", "histories"],
  "every operation sequence up to the bound crossed with a refused growth at every growth request (and all later ones), for storage and mounted memories",
  "No test makes growth fail.",
  ["runtime/structure_helpers.rs", "storage/stable.rs", "storage/allocator.rs"],
  [("growth before access", "runtime/structure_helpers.rs: grow_memory, write_obj")],
  ["results and complete observation after the failing call"])

p("C28", "Errors carry the documented WASI error code",
  "Each refused operation reports the error that identifies its cause: missing object, existing object, wrong type, non-empty directory, bad descriptor, missing right, busy object, over-long name, exceeded size limit, invalid position, refused path, not mounted or already mounted. The reported code depends only on the visible state and the arguments, not on earlier lookups, re-openings or the backend.",
  ["inputs", "histories"],
  "every operation of an error-provoking alphabet in every state reachable within the bound, on every backend",
  "Tests assert many codes one at a time from one state with cold or warm caches only.",
  ["error.rs", "fs.rs", "runtime/structure_helpers.rs", "storage/stable.rs", "storage/transient.rs"],
  [("error selection", "fs.rs, runtime/structure_helpers.rs, storage/stable.rs")],
  ["error value of every call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        f.write(json.dumps(e) + "\n")
print(len(P), "properties")
