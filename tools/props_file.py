FILE = "src/aaf2/file.py"
CORE = "src/aaf2/core.py"
PR = "src/aaf2/properties.py"
META = "src/aaf2/metadict.py"
DICT = "src/aaf2/dictionary.py"
TY = "src/aaf2/types.py"

prop("F01", "A saved AAF file holds exactly the object graph that was built",
     "Whatever graph of objects is built through the public API - any class of the data model, any of its properties, owned "
     "objects, vectors, sets, weak references, streams, in any order of attaching and filling - closing the file stores exactly "
     "that graph. Opening it again, read-only or for editing, reports the same classes, properties, values, order, keys, "
     "reference targets and stream bytes, and an independent reader of the AAF format decodes the same graph from the bytes. "
     "Opening and closing without edits changes nothing of it.",
     ["inputs"],
     "every generated object graph over all classes, properties and value types of the model, both sector sizes",
     "the tests build a few fixed compositions and read them with the library itself; combinations of classes, properties and construction order are unbounded",
     [FILE, CORE, PR, TY],
     [("writing and reading property streams", CORE + ":AAFObject.read_properties, write_properties"),
      ("indexes of vectors, sets and weak references", PR + ":write_index, read_index"),
      ("weak reference paths", FILE + ":AAFFile.read_reference_properties, write_reference_properties, weakref_index"),
      ("attaching graphs", CORE + ":AAFObject.attach")],
     "property-based testing: generated object graphs, round trip plus differential against an independent AAF reader",
     "Property data stays below 65536 bytes; times carry no fractions of a second.", ["AAFObject API", "bytes of the file"])
prop("F02", "Editing a file over any number of sessions changes exactly what was edited",
     "A file opened for editing, changed through any sequence of edits - values, owned objects, vectors, sets, weak references, "
     "streams, removed and moved objects, new and changed ids - with saves, closes and reopenings anywhere in between, and "
     "whether or not the program keeps objects referenced, holds afterwards exactly the edited graph: every edit is stored, and "
     "nothing that was not edited changes. An edit made to an object read from an existing file is never lost.",
     ["histories"],
     "every history of edits and session boundaries on files written earlier",
     "the tests edit once and reopen once; lost edits depend on caching, on handles being dropped and on the order of operations",
     [FILE, CORE, PR, "src/aaf2/cache.py"],
     [("tracking of modified objects", FILE + ":AAFObjectManager.add_modified, write_objects, read_object"),
      ("write-through on edits", PR + ":writeonly, Property.mark_modified"), ("object cache", "src/aaf2/cache.py:LRUCacheDict")],
     "stateful property-based testing against a model tree; API and independent reader compared at each session boundary",
     "Definitions that are referred to are not removed.", ["AAFObject API", "bytes of the file"])
prop("F03", "A file is changed only when the mode it was opened with allows it",
     "Opening takes the modes r, rb, r+, rb+, rw, w, w+ and wb+ and refuses every other without touching the file. A file opened for "
     "reading - also when no mode is given - cannot be changed: every attempt to set, remove, attach, detach, reorder or rename through a property, "
     "collection, id, helper, dictionary or stream either fails or has no effect, the file keeps reporting what it holds, and its bytes stay the same, "
     "also after save() and close(). Editing modes need a valid file and leave anything else untouched; w starts an empty file whatever "
     "was there; a with block closes the file and lets its exception through.",
     ["inputs", "histories"],
     "every file, every mode string, every history of attempts to change a file opened for reading",
     "the tests try one or two assignments; there is one guard for each operation of each property class, and each of them can be missing",
     [FILE, PR, CORE, "src/aaf2/cfb.py"],
     [("modes", FILE + ":AAFFile.__init__"), ("guards", PR + ":writeonly, Property.writeable"), ("streams", "src/aaf2/cfb.py:Stream")],
     "property-based testing: generated histories of attempted edits on read-only files with the graph and bytes compared, and all modes enumerated",
     "Attempts use the public classes; registering classes in memory is not an edit of the file.", ["AAFFile", "bytes of the file"])
prop("O01", "Vectors and sets of owned objects behave like lists and keyed maps",
     "A property holding a vector of owned objects behaves like a list - append, insert at any position, extend with any "
     "iterable, item assignment, pop, clear, assignment of a whole new value - and one holding a set behaves like a map keyed by "
     "the objects' unique ids, where storing an object under a key in use replaces the old one. Length, iteration, indexing, "
     "lookup, membership and the identity of the objects agree at every moment, attached or not, and after saving and reopening.",
     ["histories"],
     "every history of collection operations on attached and detached holders",
     "the tests cover a few append and pop sequences; index arithmetic and cached entries after arbitrary sequences are a history space",
     [PR],
     [("vectors", PR + ":StrongRefVectorProperty"), ("sets", PR + ":StrongRefSetProperty")],
     "stateful property-based testing against Python lists and dicts",
     "", ["StrongRefVectorProperty", "StrongRefSetProperty"])
prop("O02", "Weak references lead to the object they were given",
     "A weak reference, alone or in a vector or set, keeps leading to the very object that was assigned - across edits of other "
     "objects, saving, closing and reopening, copying and moving of the holder - and vectors and sets of weak references report "
     "exactly the targets given, in order, by iteration, by key and by membership. Objects of the wrong class or of another "
     "file are refused and leave the references as they were.",
     ["histories"],
     "every history of assigning, extending and clearing weak references in content and in definitions",
     "tests only set the common single references; tables of reference paths shared by all properties depend on the whole history",
     [PR, FILE],
     [("references", PR + ":WeakRefProperty, WeakRefArrayProperty, resolve_weakref"),
      ("path table", FILE + ":AAFFile.weakref_index, weakref_prop, resovle_weakref")],
     "stateful property-based testing against a model, with an independent reader after each close",
     "Targets stay in the document.", ["WeakRefProperty", "WeakRefArrayProperty", "bytes of the file"])
prop("O03", "Copies are complete, independent and can cross files",
     "Copying an object, in the same file or into another one, gives an object graph with the same classes, values, owned "
     "objects, stream bytes and reference targets, independent of the original: editing one leaves the other as it was, and "
     "copying leaves the source file unchanged. In another file the definitions, classes, types and enumeration elements the "
     "copy needs come along (what is already there is kept), whatever local ids the two files use. Updating a dictionary from "
     "another file's brings over every missing definition and no duplicate.",
     ["inputs", "histories"],
     "every pair of generated files with built-in and extension classes, and every object in them",
     "tests copy the mobs of one sample into an empty file; data model differences and id clashes between two files are unbounded",
     [CORE, PR, META, DICT, TY],
     [("copying", CORE + ":AAFObject.copy"), ("per-property copying", PR + ":copy methods, copy_weakref_target"),
      ("model transfer", META + ":MetaDictionary.register_external_classdef, register_external_typedef"),
      ("dictionary update", DICT + ":Dictionary.update")],
     "property-based testing: generated pairs of files, copies compared with the source and by an independent reader",
     "", ["AAFObject.copy", "Dictionary.update", "bytes of both files"])
prop("O04", "Objects have one owner; moving them keeps them whole, refusals change nothing",
     "An object is owned by one property at a time. Taken out (pop, deletion, replacement, clearing) it stays complete and "
     "editable, streams included, and can be attached somewhere else, where it holds the same content; changing a mob id keeps "
     "the mob findable under exactly its new id. Requests that would break this - attaching an object that has an owner, is of "
     "another file or class, twice, or inside itself, an id already in use, changing an attached definition's id, indices out of "
     "range - are refused and change nothing.",
     ["histories"],
     "every history of detaching, editing, re-attaching and refused requests",
     "tests detach and attach once; ownership after arbitrary sequences and the state after refused requests are not sampled",
     [CORE, PR],
     [("attach and detach", CORE + ":AAFObject.attach, detach"), ("checks before changes", PR + ":check_values, swap_unique_key"),
      ("streams of detached objects", PR + ":StreamProperty.attach, detach")],
     "stateful property-based testing against a model tree, including requests that must be refused",
     "", ["AAFObject API", "bytes of the file"])
prop("M01", "The data model can be extended and its definitions persist",
     "Types, classes, properties and enumeration elements registered through the meta dictionary - when a file is created or "
     "later - are stored completely, found again by name and id in later sessions, and usable by objects whose values then "
     "persist like any other. Local property ids stay unique within a file, stay the same over sessions, and definitions "
     "already in the file, built-in or from other software, are never lost or altered. The built-in model agrees with the "
     "definitions stored in files of other software.",
     ["inputs", "histories"],
     "every generated set of type, class, property and element registrations over two sessions, and every definition in the sample files",
     "tests register one class with one property; nested types, id allotment and merging with models already stored are unbounded",
     [META, TY, "src/aaf2/model"],
     [("registration", META + ":MetaDictionary.register_classdef, register_typedef_model, ClassDef.register_propertydef"),
      ("merging with a stored model", META + ":MetaDictionary.read_properties, register_extensions"),
      ("local ids", META + ":MetaDictionary.next_free_pid"), ("type definitions", TY + ":TypeDef classes")],
     "property-based testing: generated model extensions, definitions and objects checked by an independent reader",
     "", ["MetaDictionary API", "bytes of the file"])
prop("F04", "Files laid out by other software are read exactly and edited with care",
     "A file of another writer that is valid AAF - properties and sets stored in any order, other names of storages and streams, other "
     "local keys, other numbers for dynamic properties, weak reference tables with repeated or unused rows, orphan entries, any layout of the "
     "container - is read as exactly the graph it holds, and so are the sample files of other applications. Editing such a file changes "
     "what was edited and nothing else, over any number of sessions, and what is written stays valid for an independent reader.",
     ["inputs", "histories"],
     "every object graph in every legal storage layout, and every history of edits on it and on the sample files",
     "the tests read a handful of files; which layouts other writers choose is open, and edits meet each layout in their own way",
     [FILE, CORE, PR, META],
     [("reading indexes and references", PR + ":read_index, decode"), ("weak reference table", FILE + ":AAFFile.read_reference_properties, weakref_prop"),
      ("dynamic property numbers", META + ":MetaDictionary, ClassDef"), ("names of storages", PR + ":mangle_name")],
     "property-based testing: generated graphs rewritten in generated foreign layouts, histories of edits against a model tree and an independent reader",
     "Root storages keep their usual names. Properties the data model of a sample file lacks are not required of it.",
     ["AAFObject API", "bytes of the file"])
prop("S01", "Files open at the same time do not affect one another",
     "Any number of files can be open in one program, read, edited, saved and closed in any interleaving, one after another or each in "
     "a thread of its own. Each behaves as if it were the only one: what is read, the ids and numbers it gives out, its data model - also "
     "when several files extend it with the same ids or names in different ways - and its bytes depend on its own history alone. "
     "Files that fail to open, are dropped or left without closing disturb no other.",
     ["histories", "schedules"],
     "every interleaving of histories on several files, with data models of their own, in one thread or several",
     "the tests open one file at a time, or two for a copy; state shared by mistake (class tables, caches, default arguments) shows only when files differ and overlap",
     [FILE, META, CORE, "src/aaf2/cache.py", TY],
     [("data model of a file", META + ":MetaDictionary"), ("object caches", FILE + ":AAFObjectManager"),
      ("default definitions shared by all files", "src/aaf2/model"), ("extensions", META + ":MetaDictionary.register_extensions")],
     "stateful property-based testing: interleaved histories against one model tree for each file, and generated thread schedules switched at library lines",
     "Two threads, each with its own file; one file used by two threads is not supported by the library.", ["AAFObject API", "bytes of the file"])
prop("P01", "Looking at a file shows what is in it, works in every state, changes nothing",
     "Objects can be looked at in any state - new and half filled, attached, detached, read, edited - as a mapping (keys, get, getvalue, "
     "in, properties, allkeys), by repr, dump and walk_references; files and MXF files by dump. What is shown is what is there: the properties set "
     "and no others, their values, every object and stream below exactly once; asking for what is not set or does not exist is answered as "
     "such. Nothing of this fails, and nothing of this changes the object, what is stored later, or the bytes of a file.",
     ["inputs", "histories"],
     "every object of every class in every state between edits, and every way to look at it",
     "the tests dump two or three files without judging the output; the states between edits and the classes are too many to sample by hand",
     [CORE, PR, FILE, "src/aaf2/mxf.py"],
     [("the mapping", CORE + ":AAFObject.get, getvalue, keys, allkeys, properties"), ("dumps", CORE + ":AAFObject.dump; src/aaf2/mxf.py:MXFObject.dump"),
      ("walking", CORE + ":AAFObject.walk_references"), ("unset properties", PR + ":StrongRefProperty.value, WeakRefProperty.value, StreamProperty.value")],
     "stateful property-based testing: looks between generated edits against a model tree, and bytes compared afterwards",
     "The wording of dumps is not judged, only that properties and values appear in them.", ["AAFObject API", "printed text", "bytes of the file"])
prop("W01", "A failure of the disk is reported and never becomes data",
     "When a read, write or truncation of an underlying file fails, or the disk takes only a part of a write, then the operation "
     "during which it happens, or a later one and at the latest close(), raises. If every operation and close() return normally, the file holds "
     "exactly what was written, and what was read is what was there. A file open for reading survives such failures: asked again, it answers "
     "right; the same goes for media and MXF files that are imported or linked: an import either raises or is complete.",
     ["fault_sequences", "histories"],
     "every history of operations, every point at which the disk fails, every buffering the file is opened with",
     "the tests run on a disk that works; a swallowed error shows only at the right operation with the right buffer size",
     ["src/aaf2/cfb.py", FILE, CORE, "src/aaf2/mobs.py", "src/aaf2/mxf.py"],
     [("writes of sectors and tables", "src/aaf2/cfb.py:Stream.write, CompoundFileBinary.close, UnbufferedWriter"), ("saving", FILE + ":AAFFile.close, AAFObjectManager.write_objects"),
      ("partly read objects", FILE + ":AAFObjectManager.read_object"), ("imports", "src/aaf2/mobs.py:SourceMob.import_audio_essence, import_dnxhd_essence")],
     "property-based testing with injected faults: files whose n-th read or write fails or that run out of room, against models and an undisturbed run",
     "After an operation has raised, the state of a session that writes is not judged.", ["return or exception of each operation", "bytes of the file"])
prop("R01", "Work, memory and space follow what is handled, not the size of the file",
     "A container takes no more sectors than its streams and tables needed at their fullest: what removed, shortened or rewritten streams give up "
     "is used again, in the same session and in later ones. Streams read or written in pieces of any size cost file accesses and memory in "
     "proportion to the pieces (tables aside), and a large file of which parts are looked up, read or edited is not read, written or kept in memory as a whole. Adding, "
     "finding, moving and removing n streams, storages or mobs, saving n changed mobs and reading n mobs takes steps that grow with n, not with its square.",
     ["histories", "inputs"],
     "every history on a container, every division of a stream in pieces, and files of any size",
     "the tests look at results only; a leak of space or a step that walks everything shows in no result, only in files and times that grow",
     ["src/aaf2/cfb.py", "src/aaf2/cache.py", FILE, PR],
     [("free lists", "src/aaf2/cfb.py:CompoundFileBinary.next_free_sect, free_fat_chain, next_free_dir_id, read_fat"),
      ("bounded caches", "src/aaf2/cache.py:LRUCacheDict"), ("reading on demand", FILE + ":AAFObjectManager.read_object, write_objects"),
      ("references by key", PR + ":StrongRefSetProperty.get"), ("streams in pieces", "src/aaf2/cfb.py:Stream.read, write, allocate")],
     "property-based testing: generated histories with a model of the space needed, counters of bytes and library lines, and relations between a run and "
     "one four times as long or on a file sixteen times as heavy",
     "Bounds have slack for tables and constant overhead; appending to vectors one object at a time, and directory entries given up in earlier sessions, are not judged.",
     ["size of the file", "reads and writes of the file", "executed lines", "memory"])
