S = [
("G01", "the real parser and `build_ast` run on schemas whose explicit widths are symbolic (1..80); offsets, widths and sizes of the tree are compared with sums over the symbolic widths, rejection with `width > bits of the type`.",
 "11 (thorough 71) structures of up to 9 fields over all basic types, enumerations, with/without explicit width, as vector, instance, multivector element; index structures of multivectors for every width.",
 "width 0 (accepted by the generator, no meaning in the format); structures with more fields."),
("G02", "enumerations with symbolic explicit values and all patterns of explicit/implicit members; acceptance must be equivalent to 'distinct and representable', the generated values equal the rule, and the automatically generated members must be exactly the missing bit patterns.",
 "up to 4 members, widths 1..10 bits fully, values in [-40000, 70000], extreme values for wider ones.", "enumerations of more than 10 bits with all members generated."),
("G03", "constants with symbolic values in [-2^66, 2^66] of every type; `@const` / `@optional` bindings with symbolic field width.",
 "every type, every pair of field type and constant type (quick: 2 mismatches per type).", "enumeration-typed fields with constants."),
("G04", "structures whose reference fields have symbolic widths; the limit the real tree derives is compared with min(2^width) minus markers.",
 "1..3 (4) references per resource, to vectors, multivectors, raw data, with optional markers; references from other archives' structures.", "enforcement (C07)."),
("G05", "schemas with symbolic numbers are compiled, their normalised text is compiled again; trees must be equal (constants, enumerations, layouts, resources, decorations) and the second text identical. Numbers rendered by the templates are compared as values.",
 "three schema shapes covering every construct, subsets of the numbers symbolic.", "identifiers and comments are concrete."),
("G06", "schemas in which names, kinds, namespaces, edges between archives and ranges are symbolic choices; acceptance and resolved targets against a reference oracle.", "30 families: pairs of declarations, names stored by one or two (three) resources, references in every position to every kind, graphs of 3 (4) archives, two ranges.", "The choices end up in text which the real parser reads, so each combination is one path; the solver decides which combinations exist."),
("P01", "`read_value` and generated properties on symbolic memory against bit extraction.", "every width 1..64, bit offset 0..7, signed/unsigned.", "width 0 or > 64."),
("P02", "`write_value` on symbolic memory with symbolic value; bits outside the field unchanged; pairs of neighbouring fields in both orders.", "as P01.", "values out of range of the field."),
("P03", "the real ArchiveBuilder writes symbolic records through a recording stand-in for files; the files must be the documented bytes and the real reader must return the records.",
 "instances, vectors of 0..4 (9) items, multivectors of <= 3 buckets with <= 2 elements, raw data of 0..9 (33) bytes; index widths 4..64.", "sub-archives (the Python builder does not support them), operating-system errors."),
("P04", "Vector/Instance over symbolic content, index, slice bounds and size header against Python list semantics.", "0..5 items, indices in [-2n-3, 2n+3], slices with steps -3..3.", "larger vectors; repr."),
("P05", "Multivector over every valid content (symbolic tags, entries, bytes).", "<= 3 buckets, <= 12 bytes, 1..160 types.", "invalid tags, index not monotonic: undefined by the format."),
("P06", "RawData over every content, index, slice, separator position.", "0..5 (8) bytes.", "non-ASCII text."),
("P07", "real generated archives opened from a dictionary storage with symbolic schema texts (edits at any position), presence bits and size headers; opened <=> intact.",
 "every resource kind, mandatory/optional, one level of sub-archives.", "schemas of multivector index resources (Python documents no check)."),
("P08", "the real storages, writers and `inspector.open_archive` run with stand-ins for `os`, `open`, `mmap` and `tarfile` over symbolic contents; names, kinds and order of tar members are symbolic choices; replays use real directories and real tar files (the pax sparse ones are rebuilt from GNU tar's format).",
 "files of 0..5 bytes, up to 3 members of 9 kinds, nesting of 2.", "links, special files, errors of the operating system."),
("C01", "IR of generated accessors on symbolic memory.", "every type x width 1..bits x bit offset 0..7, enumerations, booleans.", "big-endian hosts."),
("C02", "IR of generated mutators on symbolic memory and value.", "as C01.", "values not representable."),
("C03", "IR of generated comparison, hash, copy and `Struct`.", "structures of 1..14 bytes, pairs and triples of contents.", "text output."),
("C04", "IR of ArrayView, iterators and range accessors; positions up to 2^40 symbolic for the arithmetic.", "0..4 (7) items with content, sizes up to 2^40 without.", "access outside a view (unchecked by design)."),
("C05", "IR of MultiVector, MultiArrayView, ExternalVector on MemoryResourceStorage; operations chosen symbolically; the flush threshold constant of the headers (32 MiB) is scaled to a few bytes in a shadow copy of the headers, so that every flush position occurs.",
 "up to 3 lists x 2 elements, index widths 3..64, stored contents symbolic.", "real 32 MiB buffers."),
("C06", "IR of ResourceStorage framing, read checks, Vector, ExternalVector; symbolic header sizes, stored schemas, operation sequences.", "payloads up to 40 bytes, up to 4 operations.", "file and mmap storages (see below)."),
("C07", "IR of generated archives and builders; state of every resource (intact, missing, wrong schema, wrong size, too large) symbolic.", "up to 4 resources, sizes around all limits.", "more resources."),
("C08", "IR of TarReader on archives with symbolic header bytes; for each symbolic byte its complement is put into an unused header field so that the checksum stays a known constant (one harness leaves the checksum field itself symbolic).", "archives of 1..5 blocks.", "memory mapping of the file."),
("C09", "IR of generated accessors of optional fields on symbolic memory; assignment of values, `std::optional`, `boost::optional` and none.", "17 optional fields: all base types, widths 1..64, sentinels at both ends and inside the type, all bit offsets.", "optional ranges (refused by the generator)."),
("C10", "IR of `Archive::describe` on memory storages and on a storage with exactly sized buffers; the diff shown is parsed and matched against both texts by an independent reader of diffs.", "archives of 1, 8, 28 resources; one edit (thorough: two) at any line with a symbolic character, any byte replaced, 0..64 (130) inserted lines at three places.", "the table of resources of open archives."),
("C11", "IR of the storages over a model of the operating system's file calls and of `std::ofstream` (engine/fsmodel.py) and stand-ins for boost::filesystem and boost::interprocess (engine/cppstub); replays use the real libraries and real scratch directories. Contents are symbolic; presence, path spellings and tar members are chosen by the solver. Threads: two operations run after each other on the same state, in both orders, recording for every byte which existed before the locks held at each access (engine/races.py); accesses to one byte, one of them writing, without a common lock, and locks taken in opposite orders, are violations. This covers every interleaving of the two paths executed. Replays run two real threads under ThreadSanitizer.",
 "files of 0..3 (9) bytes, 2-3 members, 25 spellings of paths, pairs of 9 operations on one or two handles.", "failures of the operating system, links, files which change while they are mapped, three threads at once, both threads using one resource while it is written, dumping a memory storage while it is written."),
("R01", "IR (rustc `--emit=llvm-ir`) of generated Rust getters on symbolic memory.", "every type x width 1..bits x bit offset 0..7, enumerations, booleans.", "big-endian hosts. Known finding: 1-bit signed fields read 1 instead of -1; an existing crate test pins it."),
("R02", "IR of generated Rust setters on symbolic memory and value, single fields and pairs of neighbours in both orders.", "as R01.", "values not representable (the writers debug-assert or truncate by design)."),
("R03", "IR of generated structure methods (equality, copy, optional values, ranges), ArrayView, Vector, RawData and `as_bytes`/`from_bytes` conversions.", "0..4 items, symbolic indices and sizes, panics observed as outcomes.", "Debug output. Known finding: `from_bytes_slice` panics on a size which is not a multiple of the item size instead of returning an error."),
("R04", "IR of the crate's storage functions (`write_to_storage`, `read_and_check_schema`, `ExternalVector`, `MemoryResourceStorage`); headers, schema bytes, presence symbolic; flush threshold scaled down in a shadow copy.", "payloads up to 24 bytes, 4 operations.", "file and tar storages (R07)."),
("R05", "IR of MultiVector / MultiArrayView on the memory storage; sequence of operations and stored bytes symbolic.", "up to 3 lists x 2 elements, index widths 8..64 bits.", "real buffer sizes."),
("R06", "IR of generated archives and builders, each resource's state symbolic (intact, absent, wrong schema, wrong size, too large).", "up to 4 resources, one subarchive.", "more resources."),
("R07", "IR of `FileResourceStorage`, `TarArchiveResourceStorage` and `MemoryResourceStorage` on a model of the operating system's file calls (engine/fsmodel.py: open, read, write, stat, mkdir ... over symbolic contents); the crates memmap2 (a mapping is a copy of the file) and tar (the harness announces members of symbolic position and size) are stand-ins. A hook in the stand-in for mapping lets a second reader run at the point where a race can happen; if it has to wait for a lock, it runs afterwards. A second family preempts a reader at any of its atomic updates (every use of a lock is one) by a read, write, existence check, sub-storage or Debug output of another thread, and compares the orders in which pairs of operations take locks. Replays use real directories and a real thread under AddressSanitizer.",
 "4 files of 0..3 bytes, 2 members with positions up to 5 (9) and sizes up to 2^64, 1 preemption.", "files which change while they are mapped, the parser of the crate tar, more than one preemption."),
("O01", "SSA form of `flatdata.Read` and of generated getters (read through an opened archive) on symbolic memory.", "every width 1..64 x bit offset 0..7 x sign; all integer types and bool.", "enumerations (the Go generator does not support them)."),
("O02", "SSA form of generated archives on the memory storage: symbolic content, symbolic indices and slices, symbolic bucket structure.", "0..4 (9) items, 2 (3) buckets of up to 2 (3) elements, index widths 8, 20, 33, 64, raw data of 0..5 (19) bytes.", "indices outside a container. Known findings: elements of one type in one bucket are one shared pointer; GetSize counts the sentinel of the index. Both are in the expected output of the generator's tests."),
("O03", "SSA form of both storages and of generated Open functions; content, schema text and presence of every resource symbolic; files are a dictionary in the interpreter and a scratch directory in replays.", "all resource kinds, contents of 0..24 (40) bytes, schema texts of nearly the right length with arbitrary characters, three resources in every combination of states.", "sub-archives whose resource name differs from the archive's name (the generated Go code does not compile; template pinned by tests). Known finding: the schema of a multivector's index is ignored."),
]


def text():
    return "\n".join("**%s** - %s\n*Bounds*: %s *Outside*: %s\n" % x for x in S)
