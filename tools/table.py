# ------------------------------------------------------------------ schema compiler
prop("G01", "Structures are packed without gaps, LSB first, in declaration order",
     "For every structure, each field starts where the previous one ends, has exactly its declared width, and the "
     "structure occupies the smallest whole number of bytes holding all fields. A field wider than its base type, "
     "or a width that is not representable, is rejected; every accepted structure keeps this layout.",
     ["programs", "inputs"], "every structure of up to the bounded number of fields, every base type, every width",
     "The tests compile a few fixed structures; offsets and sizes are sums over arbitrary widths and field counts.",
     [GEN + "tree/nodes/trivial/structure.py", GEN + "tree/nodes/trivial/field.py", GEN + "tree/builder.py"],
     [("field offsets and structure size", GEN + "tree/builder.py"), ("width checks", GEN + "tree/nodes/trivial/field.py")],
     SYM, ENV_PY)
prop("G02", "Enumerations get distinct, representable, stable values of declared width",
     "An accepted enumeration gives every listed member its explicit value, or the previous member's value plus one "
     "(starting at zero); all values are distinct and fit the declared width and signedness, and every other bit "
     "pattern of the field has a generated member. Enumerations which cannot satisfy this are rejected.",
     ["programs", "inputs"], "every base type, width, and explicit value assignment within the bounds",
     "Tests use a handful of enumerations; collisions and overflow depend on combinations of values and width.",
     [GEN + "tree/nodes/trivial/enumeration.py"], [("value assignment and checks", GEN + "tree/nodes/trivial/enumeration.py")],
     SYM, ENV_PY)
prop("G03", "Constants and sentinel values are accepted only if their target can hold them",
     "A constant is accepted exactly if its value is representable in its type. A constant bound to a field, as "
     "named value or as optional marker, is accepted exactly if the bits of the field can hold it and types agree.",
     ["programs", "inputs"], "every constant value (beyond 64 bits), base type and field width",
     "Tests check single out-of-range literals; the boundary depends on type, sign and width together.",
     [GEN + "tree/nodes/trivial/constant.py", GEN + "tree/nodes/trivial/field.py", GEN + "tree/builder.py"],
     [("constant range check", GEN + "tree/nodes/trivial/constant.py"), ("const/optional reference checks", GEN + "tree/builder.py")],
     SYM, ENV_PY)
prop("G04", "Size limits follow exactly from the widths of the references to a resource",
     "A resource which is the target of explicit references is limited to 2^w items, w being the width of the narrowest field referencing "
     "it from any resource; a field of 64 bits imposes no limit, and resources not referenced are not limited. A reference is accepted "
     "only if its field belongs to a structure stored in the resource it decorates.",
     ["programs", "inputs"], "every combination of reference widths and resource kinds within the bounds",
     "Tests fix one width per schema; the limit is a minimum over powers of two of arbitrary widths.",
     [GEN + "tree/nodes/resources/resource_with_references.py", GEN + "tree/builder.py"],
     [("limit computation", GEN + "tree/builder.py")], SYM, ENV_PY)
prop("G05", "The normalised schema stored with data means the same and is stable",
     "Compiling the schema text which generated code embeds gives the same constants, enumerations, structure layouts "
     "and archive resources as the original, and yields the same text again. The embedded text of an archive or "
     "resource contains everything its layout depends on.",
     ["programs", "inputs"], "every literal value in the schema templates, nested namespaces, all resource kinds",
     "Tests compare fixed texts; the guarantee relates all schemas with their re-parsed normal form.",
     [GEN + "generators/flatdata.py", GEN + "tree/syntax_tree.py", GEN + "grammar.py"],
     [("schema rendering", GEN + "templates/flatdata"), ("dependency collection", GEN + "tree/syntax_tree.py")], SYM, ENV_PY)

prop("G06", "Names denote one declaration of the right kind, or the schema is refused",
     "A relative name denotes the member of the archive, else the declaration in the reference's own namespace, and a name with a leading dot the "
     "declaration at that path. Missing names, targets of the wrong kind, two declarations of one name, two resources of an archive stored under one name, and archives containing themselves are refused. A "
     "range needs a name no field or other range of the structure has, must not be optional, and its structure may be stored in vectors only.",
     ["programs"], "every combination of declarations, references, kinds and ranges within the bounds",
     "Tests use one schema per rule; names, namespaces, kinds and graphs of references combine freely.",
     [GEN + "tree/resolver.py", GEN + "tree/nodes/node.py", GEN + "tree/traversal.py", GEN + "tree/builder.py"],
     [("resolution", GEN + "tree/resolver.py"), ("cycles", GEN + "tree/traversal.py"), ("ranges", GEN + "tree/builder.py")], SYM, ENV_PY)

# ------------------------------------------------------------------ Python runtime
prop("P01", "Python decodes every field exactly at its bits",
     "Reading a field of any width, bit position and signedness returns the value stored in exactly these bits "
     "(little endian, LSB first, two's complement), independent of all surrounding data and without touching memory "
     "past the guaranteed padding.",
     ["inputs"], "every width 1..64, every bit offset, every memory content",
     "Tests sample a few offsets and contents; errors live in single (width, offset, content) combinations.",
     [PY + "data_access.py", PY + "structure.py"], [("bit extraction", PY + "data_access.py:read_value")], SYM, ENV_PY)
prop("P02", "Python encodes every field exactly at its bits and changes nothing else",
     "Writing a representable value to a field makes exactly the bits of this field encode the value; every other bit "
     "of the buffer is unchanged, whatever it contained before and in whatever order fields are written.",
     ["inputs", "histories"], "every width 1..64, every bit offset, every previous content and value",
     "Tests write into zeroed buffers at a few offsets; neighbouring bits and rewrites are not sampled.",
     [PY + "data_access.py"], [("bit insertion", PY + "data_access.py:write_value")], SYM, ENV_PY)
prop("P03", "What the Python builder writes is the documented format and reads back",
     "Each resource written by a Python archive builder consists of the payload size, the packed payload and zero "
     "padding, accompanied by its schema; multivectors store tagged elements plus an index with a final sentinel. "
     "Opening the result returns exactly the values written, and misuse (missing or unknown fields, setting twice, "
     "offsets beyond the index) is refused without altering what was written.",
     ["inputs", "histories"], "every field value; vectors, multivectors and raw data up to the bounded sizes",
     "Tests write one fixed value per kind and compare bytes; empty and mixed shapes and extreme values are not covered.",
     [PY + "archive_builder.py", PY + "resource_storage.py", PY + "resources.py"],
     [("resource framing", PY + "resource_storage.py"), ("multivector layout", PY + "archive_builder.py")], SYM, ENV_PY)
prop("P04", "Python vectors behave as sequences of exactly the stored items",
     "A vector has exactly as many items as its payload holds; indexing (also from the end), iteration, slicing and "
     "conversion to tables return exactly the items a list of the stored records would return, and indices outside "
     "are refused. Resources whose declared size is inconsistent with their memory are refused.",
     ["inputs"], "every index, slice, limit, content and size header within the bounds",
     "Tests read two items by constant index; slices, limits, negative indices and inconsistent sizes are untested.",
     [PY + "resources.py"], [("indexing, slices, tables", PY + "resources.py:Vector,_VectorSlice,Instance")], SYM, ENV_PY)
prop("P05", "Python multivectors return exactly the elements of each bucket, in order",
     "For any valid multivector data, each bucket yields exactly its elements with the right type, values and order; "
     "empty buckets are empty, the sentinel is not a bucket, and positions count like those of a list.",
     ["inputs"], "every bucket layout, index entry, tag and element content within the bounds",
     "Tests read one fixed multivector; bucket boundaries and index widths vary per archive.",
     [PY + "resources.py"], [("bucket decoding", PY + "resources.py:Multivector")], SYM, ENV_PY)
prop("P06", "Python raw data access never leaves the payload and splits strings correctly",
     "Bytes and slices of raw data are those of the payload alone; size header and padding are never returned. Strings "
     "extracted from raw data end at the first separator after their start (or at the end of the data).",
     ["inputs"], "every content, index, slice and separator position within the bounds",
     "Tests read bytes 0..5 of one payload; open-ended and out-of-range slices and string functions are untested.",
     [PY + "resources.py"], [("raw data access", PY + "resources.py:RawData")], SYM, ENV_PY)
prop("P07", "Python opens an archive exactly when it is complete and its schemas match",
     "Opening succeeds exactly if the signature and all required resources with their schemas exist, every schema "
     "(also of nested archives) equals the expected one byte for byte, and sizes are consistent; otherwise an archive "
     "error is raised. Optional resources are reported missing exactly if their files are missing.",
     ["inputs", "configurations"], "every schema text, every subset of files, every size header within the bounds",
     "Tests remove or replace single files of one archive; kinds, optionality, nesting and arbitrary content multiply.",
     [PY + "archive.py", PY + "resources.py"], [("validation on opening", PY + "archive.py")], SYM, ENV_PY)
prop("P08", "Python storages give and write exactly the bytes of the file or tar member named",
     "A directory or tar archive opened as storage gives, for every name, exactly the bytes of that file as unpacking would leave it, nested "
     "storages for directories, nothing or an error for what is missing, and refuses sparse members; it lists exactly what it holds. "
     "Resources written to a directory end up, complete, in the file of their name, and no other file changes.",
     ["inputs", "configurations"], "every content, presence, name, kind, position and order of files and members within the bounds",
     "Tests read one directory and one archive; names, kinds, duplicates, sizes and nesting combine freely.",
     [PY + "file_resource_storage.py", PY + "tar_archive_resource_storage.py", PY + "file_resource_writer.py", PY + "resource_storage.py",
      PY + "inspector.py"],
     [("directories", PY + "file_resource_storage.py"), ("tar archives", PY + "tar_archive_resource_storage.py"),
      ("writing", PY + "file_resource_writer.py")], SYM, ENV_PY)

# ------------------------------------------------------------------ C++ runtime and generated C++
CPP = "flatdata-cpp/include/flatdata/"
CSRC = "flatdata-cpp/src/"
TCPP = GEN + "templates/cpp/"
ENV_LL = ("Bounded: every value within the stated bounds, on LLVM IR which clang 18 -O1 makes of the real headers, sources and "
          "generated code; every path is replayed on a witness in a sanitizer build of the same sources. Trusts clang, z3 and "
          "the IR semantics and library models of engine/llsym.py, llcpp.py and rt.cpp.")
prop("C01", "C++ accessors decode every field exactly at its bits",
     "The generated C++ accessor of a field of any type, width and bit position returns the value stored in exactly these bits "
     "(little endian, LSB first, two's complement when signed), including booleans and enumerations, independent of all other "
     "bits and without reading memory beyond the structure and its guaranteed padding.",
     ["inputs"], "every width 1..64 of every base type at every bit offset, every memory content",
     "Tests sample a few widths and values; sign extension and masking err in single (type, width, offset) combinations.",
     [CPP + "internal/Reader.h", CPP + "internal/BitHelpers.h", TCPP + "structure.jinja2"],
     [("bit extraction", CPP + "internal/Reader.h"), ("field offsets in the template", TCPP + "structure.jinja2")], LL, ENV_LL)
prop("C02", "C++ mutators encode every field exactly at its bits and change nothing else",
     "Assigning a representable value through a generated C++ mutator makes exactly the bits of that field encode the value; "
     "all other bits of the buffer keep their content, whatever it was and in whatever order fields are written. The mutator "
     "reads back what was assigned.",
     ["inputs", "histories"], "every width 1..64 of every base type at every bit offset, every previous content and value",
     "Tests write into zeroed memory; bits of neighbours and overwriting are sampled at a few offsets only.",
     [CPP + "internal/Writer.h", CPP + "internal/BitHelpers.h", TCPP + "structure.jinja2"],
     [("bit insertion", CPP + "internal/Writer.h")], LL, ENV_LL)
prop("C03", "C++ structures behave as values",
     "Two structures are equal exactly if all their bytes are equal, and equal structures hash alike; operator< is a strict weak "
     "order consistent with equality. Copying transfers exactly the bytes of the structure, and standalone structures start "
     "zeroed, own their data and copy deeply.",
     ["inputs"], "every pair and triple of contents for structures of 1 to 14 bytes",
     "Order and equality laws relate all pairs and triples of values; tests compare a few.",
     [TCPP + "structure.jinja2", CPP + "Struct.h", CPP + "Hash.h", CPP + "Copy.h"],
     [("comparison operators", TCPP + "structure.jinja2"), ("standalone structure", CPP + "Struct.h"), ("hash", CPP + "Hash.h")],
     LL, ENV_LL)
prop("C04", "C++ array views, their slices, iterators and ranges denote exactly the items",
     "A view over n stored items has size n (n-1 if items have ranges into their successor); indexing, iteration, slices and slices "
     "of slices address exactly the corresponding items, and iterators obey random access arithmetic and order. A range field "
     "spans from the item's own value to that of its successor.",
     ["inputs"], "every content, index, slice bound and iterator offset within the bounds",
     "Tests iterate one small array; slice and iterator arithmetic (also backwards) ranges over all positions.",
     [CPP + "ArrayView.h", CPP + "internal/ArrayView.inl", CPP + "internal/ArrayViewIterator.inl"],
     [("views and slices", CPP + "internal/ArrayView.inl"), ("iterators", CPP + "internal/ArrayViewIterator.inl"),
      ("range accessor", TCPP + "structure.jinja2")], LL, ENV_LL)
prop("C05", "C++ multivectors return exactly the elements added, list by list",
     "Whatever sequence of lists and elements is added, also across flushes of the write buffer, the view returned by close and the "
     "view read back have exactly these lists with exactly these elements, in order, by visiting and by typed iterators; the stored "
     "bytes are the documented format. Data which the index cannot address and unknown type numbers are refused.",
     ["inputs", "histories"], "every sequence of operations, element value, index width and stored content within the bounds",
     "Tests build three lists and one overlong vector; order, types, flush positions and index overflow combine freely.",
     [CPP + "MultiVector.h", CPP + "MultiArrayView.h", CPP + "ExternalVector.h", CPP + "internal/ResourceHandle.h"],
     [("adding elements, index", CPP + "MultiVector.h"), ("visiting and iterating", CPP + "MultiArrayView.h")], LL, ENV_LL)
prop("C06", "C++ resources are stored framed with their schema and open only if intact",
     "Writing a resource stores the payload size, the payload, zero padding and its schema, and reading returns exactly the payload. A "
     "resource opens exactly if it is present, the stored schema equals the expected one, the stored size matches the memory, and an "
     "instance has its structure's size; owning and external vectors hold exactly the items added, new items being zero.",
     ["inputs", "histories"], "every stored content, size header and schema text, every operation sequence on vectors within the bounds",
     "Tests corrupt one size and one schema; the checks must hold for every size, content and text.",
     [CPP + "ResourceStorage.h", CPP + "internal/ResourceStorage.inl", CSRC + "ResourceStorage.cpp", CPP + "Vector.h", CPP + "ExternalVector.h",
      CPP + "MemoryResourceStorage.h"],
     [("framing and checks", CPP + "internal/ResourceStorage.inl"), ("vectors", CPP + "Vector.h")], LL, ENV_LL)
prop("C07", "C++ archives open exactly if all mandatory resources are intact and in limits",
     "A generated archive is open exactly if its signature and every mandatory resource and subarchive are intact and no resource exceeds "
     "the limit implied by references to it; each optional resource is available exactly if it is intact. What a builder writes opens "
     "with the data written, and existing archives are never modified by builders.",
     ["inputs", "histories"], "every combination of the states of up to four resources, sizes around all limits, any resource left out",
     "Tests omit single resources; states of resources combine, and limits interact with optional resources.",
     [CPP + "Archive.h", CSRC + "Archive.cpp", CPP + "ArchiveBuilder.h", CSRC + "ArchiveBuilder.cpp", TCPP + "archive.jinja2"],
     [("opening", CPP + "Archive.h"), ("generated archives", TCPP + "archive.jinja2"), ("builders", CSRC + "ArchiveBuilder.cpp")], LL, ENV_LL)
prop("C08", "C++ tar reader lists exactly the regular files of an archive",
     "For every archive, the reader lists exactly the regular files, in order, with their full names (long names and POSIX prefixes included), "
     "data offsets and sizes as stated in the headers; directories are skipped. Damaged headers, unsupported entries and archives of invalid "
     "length are refused, and no input makes it read outside the archive or loop.",
     ["inputs"], "every content of header fields within the bounds, archives of up to five entries",
     "Tests read one archive; number formats, damaged fields and sizes at the limits combine freely.",
     [CPP + "internal/TarReader.h", CSRC + "TarReader.cpp"], [("reader", CSRC + "TarReader.cpp")], LL, ENV_LL)

prop("C09", "Optional C++ fields read as none exactly at their sentinel and round-trip",
     "Generated accessors of an optional field give no value exactly if the stored bits are the field's sentinel, and otherwise the stored "
     "value. Assigning a value, an optional of the standard or of boost, or nothing stores the value (the sentinel) and no other bit, and it "
     "reads back unchanged.",
     ["inputs"], "every memory content and every value, for all base types, widths and offsets in the matrix, sentinels at the limits of the types",
     "Tests read one optional field; sentinels at the ends of signed types and unaligned fields combine freely.",
     [CPP + "internal/Reader.h", CPP + "internal/Writer.h", TCPP + "structure.jinja2", GEN + "generators/cpp.py"],
     [("reading", CPP + "internal/Reader.h"), ("assigning", CPP + "internal/Writer.h")], LL, ENV_LL)
prop("C10", "Describing a C++ archive of another schema is safe and shows every difference",
     "For every stored schema which differs from the expected one, describe() of the archive, which is not open, shows a diff whose lines are "
     "lines of the two schemas in order: every added or removed line is shown with its mark, lines left out are equal in both. It "
     "reads nothing beyond the stored schema, whatever its bytes are, and handles differences of any length.",
     ["inputs"], "every edit of one line of the schema with any character, any byte replaced, up to 64 (130) lines inserted",
     "Tests describe two archives; reads behind a schema and writes behind the context mask need exact lengths to be seen.",
     [CSRC + "Archive.cpp", CPP + "Archive.h"], [("diff", CSRC + "Archive.cpp")], LL, ENV_LL)

prop("C11", "C++ file, tar and memory storages hold exactly what was written, across threads",
     "A C++ storage of a directory or of a tar archive, however its path is spelled, finds and reads exactly the files (the last member of each "
     "name) there; written resources appear in exactly the file named, and what cannot be stored or opened is reported, without a crash "
     "and without touching other files. Data handed out stays valid, and threads may use storages of the same data at once.",
     ["inputs", "histories", "schedules"], "every content and presence of files, spelling of paths, arrangement of members, pair of operations",
     "Tests read archives they wrote from one thread; spellings, repeated members, obstacles and schedules combine freely.",
     [CPP + "FileResourceStorage.h", CPP + "MemoryMappedFileStorage.h", CPP + "TarArchiveResourceStorage.h", CPP + "MemoryMappedTarFileStorage.h",
      CPP + "MemoryResourceStorage.h", CPP + "internal/ResourceStorage.inl", CSRC + "ResourceStorage.cpp"],
     [("directories", CPP + "FileResourceStorage.h"), ("tar archives", CPP + "MemoryMappedTarFileStorage.h"), ("memory", CPP + "MemoryResourceStorage.h")],
     LL, ENV_LL)

# ------------------------------------------------------------------ Rust crate and generated Rust
RS = "flatdata-rs/lib/src/"
TRS = GEN + "templates/rust/"
ENV_RS = ("Bounded: every value within the stated bounds, on LLVM IR which rustc (opt-level 1, LTO with std, release arithmetic) makes of the "
          "real crate and generated code; paths are replayed on witnesses in an address sanitizer build. Trusts rustc, z3 and the IR "
          "semantics and library models of engine/llsym.py and rustlib.py.")
prop("R01", "Rust accessors decode every field exactly at its bits",
     "The generated Rust getter of a field of any type, width and bit position returns the value stored in exactly these bits "
     "(little endian, LSB first, two's complement when signed), including booleans and enumerations, whatever the surrounding bytes are.",
     ["inputs"], "every width 1..64 of every base type at every bit offset, every memory content",
     "Tests sample a few widths; masking and sign extension err in single (type, width, offset) combinations.",
     [RS + "bytereader.rs", TRS + "structure.jinja2"], [("bit extraction", RS + "bytereader.rs"), ("field offsets", TRS + "structure.jinja2")], LL, ENV_RS)
prop("R02", "Rust setters encode every field exactly at its bits and change nothing else",
     "Setting a representable value through a generated Rust setter makes exactly the bits of that field encode the value; all other "
     "bits keep their content, whatever it was and in whatever order fields are written. The getter then returns the value.",
     ["inputs", "histories"], "every width 1..64 of every base type at every bit offset, every previous content and value",
     "Tests write into zeroed memory at a few offsets; neighbouring bits and overwriting are not sampled.",
     [RS + "bytewriter.rs", TRS + "structure.jinja2"], [("bit insertion", RS + "bytewriter.rs")], LL, ENV_RS)
prop("R03", "Rust structures, slices, vectors and raw data denote exactly the items stored",
     "Equality, copying, optional values and ranges of generated structures follow exactly the bits of their fields. A slice over stored bytes "
     "or a vector has exactly the items stored or added (one less if items have ranges into their successor), new items being zero, and "
     "indices, slices and sizes outside are refused without touching other memory; strings in raw data end at the first terminator.",
     ["inputs", "histories"], "every content, size, index and operation sequence within the bounds",
     "Tests grow one vector and read a few items; sizes, positions and operation orders combine freely.",
     [RS + "vector.rs", RS + "structs.rs", RS + "arrayview.rs", RS + "rawdata.rs", TRS + "structure.jinja2"],
     [("vectors", RS + "vector.rs"), ("slices of structures", RS + "arrayview.rs"), ("generated structures", TRS + "structure.jinja2")], LL, ENV_RS)
prop("R04", "Rust resources are stored framed with their schema and open only if intact",
     "Writing a resource, at once or item by item across flushes, stores the payload size, the payload, zero padding and its schema, replacing any "
     "previous content. Reading returns exactly the payload if data and schema exist, the schema is the expected one and the stored size "
     "matches; otherwise it reports an error, and data handed out stays valid and unchanged whatever is written later.",
     ["inputs", "histories"], "every stored content, size header, schema text and operation sequence within the bounds",
     "Tests corrupt nothing and write each resource once; checks must hold for every size, content and history.",
     [RS + "storage.rs", RS + "memstorage.rs", RS + "vector.rs"],
     [("framing and checks", RS + "storage.rs"), ("memory storage", RS + "memstorage.rs"), ("external vector", RS + "vector.rs")], LL, ENV_RS)
prop("R05", "Rust multivectors return exactly the elements added, list by list",
     "Whatever sequence of lists and elements is added, also across flushes, the view returned by close and the view read back have exactly "
     "these lists with exactly these elements in order, by index, slice and iteration from both ends; the stored bytes are the documented "
     "format. Data which the index cannot address, damaged lists and unknown type numbers are refused.",
     ["inputs", "histories"], "every sequence of operations, element value, index width and stored content within the bounds",
     "Tests build one multivector of fixed shape; order, types, flush positions, index overflow and damage combine freely.",
     [RS + "multivector.rs", RS + "multiarrayview.rs", TRS + "variadic.jinja2", TRS + "index.jinja2"],
     [("adding elements, index", RS + "multivector.rs"), ("views", RS + "multiarrayview.rs")], LL, ENV_RS)
prop("R06", "Rust archives open exactly if all resources are intact or absent and optional",
     "A generated Rust archive opens exactly if its signature and every resource and subarchive are intact or both optional and absent, and no "
     "resource exceeds the limit implied by references to it; otherwise the error names the reason. What a builder writes opens with the data "
     "written, existing archives are never overwritten, and an archive keeps its data valid after the storage handle is dropped.",
     ["inputs", "histories"], "every combination of the states of up to four resources, sizes around all limits, any resource left out",
     "Tests omit single resources; states of resources combine, and limits interact with optional resources.",
     [TRS + "archive.jinja2", RS + "storage.rs"], [("opening and building", TRS + "archive.jinja2"), ("checks", RS + "storage.rs")], LL, ENV_RS)
prop("R07", "Rust storages give exactly the bytes named, also across threads",
     "A Rust storage of a directory, of a tar archive or in memory reports as existing and reads exactly the files (members, resources) there, with "
     "exactly their bytes; truncated or sparse members and broken archives are errors, not panics. Writing creates directories as needed, replaces "
     "the content of exactly the file named. Data handed out stays valid while other threads use the storage, and threads never wait for each other forever.",
     ["inputs", "histories", "schedules"], "every content, presence, member position and size, and a second thread at every use of a lock and while a file is being mapped",
     "Tests write and read one directory from one thread; presence, positions, truncation and schedules combine freely.",
     [RS + "filestorage.rs", RS + "tarstorage.rs", RS + "memstorage.rs", RS + "storage.rs"],
     [("directories", RS + "filestorage.rs"), ("tar archives", RS + "tarstorage.rs"), ("memory", RS + "memstorage.rs")], LL, ENV_RS)
# ------------------------------------------------------------------ Go library
GO = "flatdata-go/flatdata/"
TGO = GEN + "templates/go/"
SYMGO = "symbolic execution of the go/ssa form of the real Go code (path forking, z3 bit-vectors)"
ENV_GO = ("Bounded: every value within the stated bounds, on the SSA form of the real package and of code generated for Go; every "
          "path is replayed on a witness with the compiled code. Trusts go/ssa, z3, the interpreter engine/gosym.py and its models "
          "of a few standard library functions.")
prop("O01", "Go decodes every field exactly at its bits",
     "Reading a field in Go, by `flatdata.Read` or a generated getter, returns the value stored in exactly its bits (little endian, LSB "
     "first, two's complement for signed types) for every width, bit position and item, independent of all surrounding data and without "
     "access behind the resource's padding.",
     ["inputs"], "every width 1..64, bit offset 0..7, both signs, every memory content",
     "Tests read fixed byte strings; widths, offsets, signs and neighbouring bits combine freely.",
     [GO + "reader.go", TGO + "structure.jinja2"], [("bit extraction", GO + "reader.go"), ("getters", TGO + "structure.jinja2")], SYMGO, ENV_GO)
prop("O02", "Go containers give exactly the data stored",
     "An opened Go vector has as many items as its recorded size holds, Get and GetSlice (end included, by steps) give these items, an "
     "instance gives its structure, raw data all its bytes, and a multivector bucket its elements in order with their types and values. "
     "Resources which are not there are not open, and the archive's size is the sum of its open resources.",
     ["inputs"], "every content, index, slice and bucket structure within the bounds",
     "Tests read one archive with fixed data; positions, sizes and element types combine freely.",
     [TGO + "vector.jinja2", TGO + "multivector.jinja2", TGO + "rawdata.jinja2", TGO + "instance.jinja2", TGO + "archive.jinja2",
      GEN + "generators/go.py"],
     [("vectors", TGO + "vector.jinja2"), ("multivectors", TGO + "multivector.jinja2")], SYMGO, ENV_GO)
prop("O03", "Go archives open exactly if the resources there are intact",
     "The Go storages give a resource's content and schema exactly if both exist, the content has at least the size of header and padding and the "
     "schema is not empty, and name the reason otherwise. A generated Go archive is refused if a resource which exists is damaged or has another schema than "
     "expected; resources which do not exist are reported as not open, and sub-archives are read from the directory of their name.",
     ["inputs"], "every presence, size and schema text within the bounds, for memory and file storage",
     "Tests open one intact archive and one missing file; states of resources and schema texts combine freely.",
     [GO + "resource.go", TGO + "archive.jinja2"], [("storages", GO + "resource.go"), ("opening", TGO + "archive.jinja2")], SYMGO, ENV_GO)
