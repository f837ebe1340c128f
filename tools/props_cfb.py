CFB = "src/aaf2/cfb.py"
prop("C01", "Streams inside a container behave like independent files",
     "Within a container, every stream behaves as its own byte file: a read returns exactly the bytes last written at "
     "those offsets, seeking or truncating past the end fills with zeros, positions and reported sizes follow file "
     "semantics, and this holds across the small/large stream cutoff, overwrites, shrinking, growth and removal. "
     "No operation on one stream changes the bytes or size of another, and everything reads back identically after the "
     "container is closed and reopened, with 512- or 4096-byte sectors.",
     ["histories", "configurations"],
     "every history of open/write/seek/read/truncate/remove/reopen over several streams, both sector sizes, memory and file backends",
     "tests write a handful of fixed sizes once; interactions of sizes, offsets, reuse of freed sectors and reopening are a history space",
     [CFB],
     [("stream read/write/seek/truncate and mini-stream conversion", CFB + ":Stream"),
      ("sector allocation and free lists", CFB + ":CompoundFileBinary.next_free_sect, next_free_minifat_sect, free_fat_chain")],
     "stateful property-based testing against a byte-array model (Hypothesis)",
     "Streams up to 20 kB here; larger ones in C05.", ["CompoundFileBinary.open", "Stream.read", "bytes of the file"])
prop("C02", "The container's directory is a faithful tree of named entries",
     "Creating, moving, removing, recursively removing and looking up storages and streams has exactly the effect it has "
     "on an ordinary tree of names (case-insensitively unique among siblings), with names, kinds, class ids, flags, "
     "timestamps and contents carried along by moves and preserved over close and reopen. Listing and walking report "
     "exactly the entries present. An operation that must be refused (missing or existing target, wrong kind, non-empty "
     "storage, root, name that does not fit, moving a storage into itself) raises and changes nothing.",
     ["histories"],
     "every history of namespace operations, including hundreds of siblings inserted and removed in any order and requests that must be refused",
     "tests cover short scripted sequences; tree shapes after arbitrary insert/remove orders and refused requests are unbounded",
     [CFB],
     [("sibling trees", CFB + ":DirEntry.insert, DirEntry.pop"),
      ("path resolution and mutation", CFB + ":CompoundFileBinary.find, create_dir_entry, remove, rmtree, move, makedirs, walk")],
     "stateful property-based testing against a path-dictionary model, with an independent parser after each close",
     "Names come from a pool whose case folding the format defines unambiguously.",
     ["CompoundFileBinary API", "bytes of the file"])
prop("C03", "Every container written is structurally valid for any other reader",
     "After any history of edits, closing leaves a file that an independent reader of the compound file format accepts in "
     "full: all chains are in range, terminated, acyclic and disjoint, have exactly the length their stream needs, nothing "
     "is leaked, header counts agree, and each sibling list is a search tree in format order that satisfies the red-black "
     "rules. The independent reader sees the same tree and the same bytes the library reports.",
     ["histories", "configurations"],
     "every history of namespace and stream operations with closes and reopens for modification in between",
     "the tests only read files back with the library itself, so self-consistent but invalid files pass",
     [CFB],
     [("tables written at close", CFB + ":CompoundFileBinary.close, write_header, write_difat, write_fat, write_minifat, write_dir_entries"),
      ("sibling tree balancing", CFB + ":DirEntry.insert, DirEntry.pop")],
     "stateful generation with an independent MS-CFB validator as oracle",
     "The validator is written from the MS-CFB format, independent of the library.", ["bytes of the file"])
prop("C04", "Containers written by other software are read exactly and edited safely",
     "A valid container laid out differently from the way the library lays it out - fragmented and permuted sectors and "
     "mini sectors, free holes, directory slots in any order, sibling trees of any shape and colouring - is read as exactly "
     "the tree and bytes it holds. Reading changes nothing, and editing it in place keeps all untouched entries and bytes "
     "and leaves a valid container.",
     ["inputs", "histories"],
     "every layout of a generated tree by an independent writer, followed by every edit history",
     "the repository holds a handful of sample files; the layouts other writers may choose are unbounded",
     [CFB],
     [("reading tables and directory", CFB + ":CompoundFileBinary.read_header, read_fat, read_minifat, read_dir_entry, find"),
      ("editing on top of them", CFB + ":next_free_sect, next_free_minifat_sect, next_free_dir_id, DirEntry.insert, DirEntry.pop")],
     "property-based testing: independent layout generator, differential read, stateful edits, independent validator",
     "Foreign files come from the reference writer in vlib/cfbref.py.", ["CompoundFileBinary API", "bytes of the file"])
prop("C05", "Allocation tables grow and shrink past every size boundary without loss",
     "Containers whose allocation tables outgrow one sector, the list held in the header, or one table-extension sector, "
     "and files beyond 2 GB with their reserved range-lock sector, keep every stream intact and stay valid for an "
     "independent reader, while they grow, shrink, are reopened and grow again.",
     ["histories", "configurations"],
     "every history of large stream growth, truncation, removal and reopening aimed at the table boundaries, 512- and 4096-byte sectors",
     "tests never get near the boundaries for most sizes, and cannot place every operation on each side of them",
     [CFB],
     [("table growth", CFB + ":CompoundFileBinary.next_free_sect, iter_difat, write_difat, read_header"),
      ("range lock", CFB + ":RANGELOCKSECT")],
     "boundary-directed stateful generation, byte model and independent validator, sparse files for >2 GB",
     "Files above 457 MB are sparse and made by the reference writer.", ["bytes of the file"])

prop("C06", "Damaged and truncated containers end in data or in an error",
     "Opening, listing, reading and editing a damaged or truncated file ends: in data or in an exception, never in an endless loop "
     "or in the allocation of whatever a damaged size or count claims. Opening and reading a damaged file never writes to it. A container that is cut short, or "
     "damaged where it stays valid, is read as what it still holds, with missing data as zeros; damage to the data, chain or "
     "size of one stream leaves all other streams readable with their exact bytes.",
     ["inputs", "faults"],
     "every container layout and AAF file, cut at any byte or with any header field, table entry, directory field, stream byte or sector damaged",
     "the tests open only sound files and two or three damaged ones; the ways a file can be damaged are unbounded",
     [CFB, "src/aaf2/properties.py", "src/aaf2/file.py"],
     [("chains and cycles", CFB + ":CompoundFileBinary.get_fat_chain, Stream.read, Stream.allocate"),
      ("directory links", CFB + ":CompoundFileBinary.read_dir_entry, DirEntry.listdir, find"),
      ("counts in index streams", "src/aaf2/properties.py:StrongRefSetProperty.read_index, WeakRefArrayProperty.read_index")],
     "fault injection: structured corruption and truncation of generated containers, resource budgets, independent parser as oracle",
     "The budget is 20 s of CPU and 300 MB for files of up to some hundred KB; which exception is raised is not judged.",
     ["CompoundFileBinary API", "AAFFile API", "writes to the file"])
