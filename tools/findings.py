fix("mask unaligned 64-bit reads and sign-extend 1-bit signed fields in Python", "P01",
    "unaligned 64-bit fields returned bits of the following field; 1-bit signed fields returned 1 instead of -1")
fix("write_value keeps the bits surrounding a field", "P02", "writing a field cleared or kept wrong neighbouring bits")
fix("accept nested namespaces in schemas (normalised form of dotted namespaces)", "G05",
    "the normalised schema of a dotted namespace could not be compiled again")
fix("empty resources are not missing resources in Python archives", "P07", "resources with empty payload were taken for missing ones")
fix("raw data access in Python is limited to the payload", "P06", "indices and slices of raw data reached the size header and the padding")
fix("sub_str without a terminator returns the remaining string", "P06", "the last byte of an unterminated string was dropped")
fix("to_numpy limits the number of rows instead of setting it", "P04", "a limit above the size produced rows beyond the vector")
fix("reject resources with inconsistent size in Python", "P07", "size headers larger than the resource or not divisible by the item were accepted")
fix("optional resources without data are missing in Python", "P07", "an absent optional resource raised or was reported as present")
fix("inspector opens tar archives", "P07", "the inspector passed the wrong storage for tar archives")
fix("find archives in nested namespaces when rendering a Python module", "G05", "archives of nested namespaces were not found")
fix("refuse multivectors which exceed the range of their index in Python", "P03", "index entries wrapped around silently")
fix("split raw data at separators longer than one byte", "P06", "separators longer than one byte were never found")
fix("negative indices of Python multivectors count from the end", "P05", "negative indices were off by one or addressed the sentinel")
fix("C++ reader sign-extends signed fields of one bit", "C01", "i8:1 set to -1 read as 1")
fix("C++ readers of signed enumerations spanning their whole type compile", "C01", "enumerations of base type width did not compile or sign-extend")
fix("C++ writer masks negative enumeration values", "C02", "negative enumeration values overwrote bits of the following fields")
fix("generated C++ operator< orders structures lexicographically", "C03", "operator< was not a strict weak order")
fix("distance of C++ array view iterators can be negative", "C04", "begin - end of items larger than a byte was a huge positive number")
fix("empty views of overlapping C++ structures have no bytes", "C04", "an empty view claimed the bytes of one item")
fix("refuse C++ multivector data beyond the range of its index", "C05", "index entries wrapped around silently, lists lost their elements")
fix("C++ vector elements added after removing others are zero", "C06", "grow() or resize() after removing items exposed bytes of the removed items")
fix("C++ instances are read only if the resource has their size", "C06", "a resource shorter than the structure was opened and read out of bounds")
fix("C++ tar reader stops at entries exceeding the archive", "C08", "sizes near 2^64 wrapped the position around: endless loop or the wrong entries")
fix("C++ tar reader does not name files after long-named directories", "C08", "the file following a long-named directory got the directory's name")
fix("C++ tar reader joins prefix and name of POSIX entries", "C08", "POSIX names longer than 100 characters lost their prefix")
fix("assign boost::optional values to optional fields in C++", "C09", "assigning a boost::optional to an optional field did not compile")
fix("keep the context mask of C++ schema diffs in bounds", "C10", "one bit behind the mask was written: out of bounds if the diff has a multiple of 64 lines")
fix("compare whole stored schemas in C++ schema diffs", "C10", "stored schemas were read up to a null byte, also behind their end")
fix("Rust reader takes the last byte of wide fields from its place", "R01", "unaligned wide fields not in the first byte took their last byte from beyond")
KNOWN.append({"property": "R01", "status": "known", "id": "R01/signed-one-bit",
              "what": "signed Rust fields of one bit decode 1 instead of -1 (enumerations: an invalid discriminant); the crate's own unit test "
                      "test_read_bytes_signed pins the value 1, so the repair would fail the existing suite"})
fix("Rust writer puts the last byte of wide fields in its place", "R02", "unaligned wide fields not in the first byte overwrote byte 8 of the structure")
fix("indexing Rust vectors of overlapping structures stops at the last item", "R03", "Vector::index reached the hidden last element: ranges and bytes beyond the allocation")
KNOWN.append({"property": "R03", "status": "known", "id": "R03/from-bytes-slice-panics",
              "what": "generated Rust from_bytes_slice panics (assert_eq) on too few bytes instead of returning UnexpectedDataSize; the expected "
                      "output of the generator's tests contains the assertion, so the repair would fail the existing suite"})
fix("writing a Rust memory resource again replaces its content", "R04", "new data was appended to the previous content of the resource")
fix("refuse Rust multivector data beyond the range of its index", "R05", "index entries wrapped around silently, lists lost their elements")
fix("flatdata-go: sign-extend fields which end in their first byte", "O01", "signed fields within one byte, not at its start, were returned without sign")
KNOWN.append({"property": "O02", "status": "known", "id": "O02/same-type-elements",
              "what": "all elements of one type in a bucket of a Go multivector are the same pointer, to the last one; the expected output of the "
                      "generator's tests contains the code, so the repair would fail the existing suite"})
KNOWN.append({"property": "O02", "status": "known", "id": "O02/sentinel-counted",
              "what": "GetSize of a Go multivector counts the index's sentinel as a bucket; pinned by the expected output of the generator's tests"})
KNOWN.append({"property": "O03", "status": "known", "id": "O03/index-schema",
              "what": "Go archives ignore the schema of a multivector's index; pinned by the expected output of the generator's tests"})
fix("refuse two ranges of the same name in a structure", "G06", "two ranges of one name were accepted; the generated code does not compile (C++) or loses one (Python)")
fix("read empty files in the Python file storage", "P08", "an empty file raised ValueError from mmap instead of being read")
fix("refuse pax sparse members in the Python tar storage", "P08", "sparse members in pax format (GNU tar --posix --sparse) were read as if they were not sparse")
fix("find directories implied by tar member paths in Python", "P08", "nested archives in tar files without entries for directories were not found")
fix("map each file only once when Rust storages are shared by threads", "R07", "two threads reading one file: the second mapping dropped the first, whose data had been handed out")
fix("do not panic on truncated tar archives in Rust", "R07", "a member cut off by the end of the archive made existence checks and reading panic")
fix("store raw data of any bytes-like type in Python, refuse others", "P03", "memoryviews, lists and text given as raw data were dropped: an empty resource was written")
fix("the last of several tar entries of one name counts in C++", "C11", "of two members of one name the first was read, unlike in tar and in the other languages")
fix("C++ file storages of paths ending in a dot stay inside the directory, empty paths are refused", "C11", "a storage of the path \".\" read and wrote files named \".r\"; the empty path opened the root directory")
fix("writing to a C++ storage which cannot be written fails instead of crashing", "C11", "write, create_external_vector and create_multi_vector dereferenced a null stream on tar storages")
fix("closing a C++ vector twice does not crash", "C06", "close() called again dereferenced the stream which was released")
fix("directories of a C++ memory storage share its lock", "C11", "a storage and its directories have one map but a lock each: threads using both raced")
fix("Rust memory storage does not replace data it handed out to another thread", "R07", "two threads reading one resource for the first time: the second copy replaced the first, whose data had been handed out")
fix("Rust storages refuse a resource with a huge size without overflow", "R04", "a stored size near 2^64 made debug builds panic (overflow) instead of returning UnexpectedDataSize")
fix("Python archives do not take a resource with an empty schema as missing", "P07", "an optional resource whose schema file is empty was reported missing, and the archive opened")
fix("a resource named like the index of a multivector is refused", "G06", "archive { m : multivector<...>; m_index : ...; } was accepted: both resources are stored under one name")
