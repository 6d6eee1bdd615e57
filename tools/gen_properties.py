#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

H, D, N, Z, T, W = "include/npy/npy.h", "src/dtype.cpp", "src/npy.cpp", "src/npz.cpp", "src/tensor.cpp", "src/zip.cpp"

p("C01", "Stored element bytes are in the requested byte order, on every host",
  "For every element type, every element count and every requested byte order, saving emits exactly sizeof(element) bytes per element, in storage order, with every scalar (each half of a complex number separately) in the requested byte order, where NATIVE means the order of the machine running the code. No byte is skipped, repeated or added, and the result does not depend on the machine when BIG or LITTLE was requested.",
  ["inputs", "configurations"], "all element types x {NATIVE,BIG,LITTLE} x {little-endian, big-endian host} x all values and counts",
  "The tests store little-endian data on a little-endian host plus one big-endian int32 file; the byte-swapping code of the other twelve types, and all code for a big-endian host, is never executed.",
  [D, H], [("write_values specialisations", D), ("native_endian", H)], observe=["bytes produced by npy::save / npy::write_values"])
p("C02", "Loading restores elements stored in either byte order, on every host",
  "For every element type, count, stored byte order and host, loading consumes exactly sizeof(element) bytes per element and gives each element, in storage order, the value those bytes denote in the stored byte order (each half of a complex number separately). It is the exact inverse of saving.",
  ["inputs", "configurations"], "all element types x {NATIVE,BIG,LITTLE} x {little-endian, big-endian host} x all values and counts",
  "Only one big-endian fixture (int32) exists; the other swapped readers and a big-endian host are never executed.",
  [D, H], [("read_values specialisations", D), ("native_endian", H)], observe=["values of a tensor returned by npy::load"])
p("C03", "Type codes are NumPy's, and both directions of the mapping agree",
  "For every element type and byte order the type code written to a file is NumPy's code for exactly that type (kind letter, item size, byte-order mark; NATIVE resolves to the host's order), and parsing a supported code yields back that type and order. Every supported element type of the built-in tensor reports the code of its own C++ type, and a code that is not in the supported set is refused with an exception rather than mapped to some type.",
  ["inputs", "configurations"], "all data types x byte orders x hosts, and all type-code strings",
  "Tests look at little-endian codes only and never present an unknown code.",
  [D, T, H], [("BIG_ENDIAN_DTYPES/LITTLE_ENDIAN_DTYPES/DTYPE_MAP", D), ("to_dtype", D), ("from_dtype", D), ("tensor<T>::get_dtype", T), ("tensor<std::wstring>::dtype", H)])
p("C04", "Every NPY header written is well formed for every shape",
  "For every type code, storage order and shape (any rank, any extents), the header written is the NPY magic, a version, a little-endian length field equal to the number of header bytes that follow it, and a Python dictionary with exactly the keys descr, fortran_order and shape holding the given values (a one-dimensional shape is spelled with a trailing comma), padded with spaces and ended by a newline so that the whole header is a multiple of 64 bytes. A length that does not fit the version-1 field uses version 2.0 or is refused, never truncated. The bytes do not depend on the locale of the process.",
  ["inputs"], "all dtype strings, both orders, all shapes",
  "Fixtures cover rank 0, 1 and 3 with small extents, so one header length; lengths over 255 and exact multiples of 64 are not reached.",
  [H], [("write_npy_header", H)], observe=["bytes produced by npy::save / npy::write_npy_header"])
p("C05", "A malformed NPY header is refused in every build configuration",
  "Reading or peeking at an NPY stream whose magic bytes, version, dictionary syntax, key set (a missing or an unknown key), type code or shape tuple (a parenthesised list of non-negative integers) is not what the format allows ends in an exception: a header is returned only after each of these was checked. The outcome is the same whether or not assertions are compiled in, and bad input never aborts the process.",
  ["inputs", "configurations"], "all byte strings presented as an NPY header, release and debug builds",
  "No test presents a malformed header; the space of malformed inputs cannot be enumerated, and tests run in one build configuration.",
  [H, N, D], [("read_npy_header", H), ("header_info(const std::string&)", N), ("read/read_bool/read_shape/read_string helpers", N), ("from_dtype", D)])
p("C06", "Input that ends early is never turned into an array",
  "If the stream ends or fails before all bytes of the NPY header or of the element data were read, loading throws; a tensor or header is returned only if every byte it is made of was actually read from the input.",
  ["inputs", "fault_sequences"], "all truncation points of all inputs, and any read failure",
  "All fixtures are complete; truncation at every possible byte and device read errors are not exercised.",
  [H, D, N], [("read_npy_header", H), ("read_values", D), ("tensor<T>::load", H)])
p("C07", "A parsed header says exactly what the file's dictionary says",
  "For every well-formed dictionary, with its keys in any order, the header returned carries the type and byte order named by descr, the order named by fortran_order and the extents named by shape, and the maximum element length for string types, whatever the locale of the process; no field of a returned header is ever left uninitialised, and peeking and loading see the same header.",
  ["inputs"], "all well-formed NPY dictionaries, all constructors of the header type",
  "Fixtures have NumPy's own key order and a handful of shapes; an uninitialised field usually reads as something plausible.",
  [N, H], [("header_info constructors", N), ("read_shape, read_bool", N), ("peek / load", H)])
p("C08", "Unicode tensors keep width, padding and characters",
  "For every unicode tensor the stored width is the length of its longest element, every element occupies exactly that many 4-byte code units in the requested byte order, shorter elements being padded with NUL, and the width announced in the type code is the width used in the data. Loading replaces each element by its code units up to the trailing NUL padding, keeping all other characters.",
  ["inputs", "configurations"], "all unicode tensors, byte orders and hosts",
  "The fixture holds short ASCII digits in little-endian; embedded NULs, big-endian storage and uneven lengths are not explored.",
  [D, H], [("write_values<std::wstring>", D), ("read_values<std::wstring>", D), ("tensor<std::wstring>::dtype", H)])
p("C09", "Every tensor element access is checked",
  "Element access by index reaches storage only after the number of indices was compared with the rank and every index, after a negative one has been counted from the end as in NumPy, was found to be below its extent; otherwise std::invalid_argument is thrown and no storage is touched.",
  ["inputs"], "all index tuples of any length and sign, all shapes and both storage orders, all access functions",
  "Tests try one wrong rank and one out-of-range index on one shape through one overload.",
  [H], [("tensor<T>::ravel overloads", H), ("tensor<T>::operator(), get, set", H)])
p("C10", "Index arithmetic follows C order or Fortran order exactly",
  "For every shape and every valid index tuple, the element addressed is the one at the row-major position for a C-order tensor and at the column-major position for a Fortran-order tensor, through every access function.",
  ["inputs"], "all ranks, extents, indices, both orders",
  "One 3x4x5 Fortran tensor is checked; the formula must hold for every rank and extent.",
  [H], [("tensor<T>::get_ravel_strides", H), ("tensor<T>::ravel", H)])
p("C11", "A tensor's buffer always has exactly as many elements as its shape says",
  "After construction from any shape, after loading, copying, assigning, moving into or replacing the contents of a tensor, the number of stored elements equals the product of the extents (1 for rank 0), a product that cannot be represented being refused with an exception. Copies and moves transfer shape, order, type and values together, and bulk copies of any other size are refused without changing the tensor.",
  ["inputs", "histories"], "all shapes (including hostile ones from files) and all sequences of operations",
  "Tests build a few small tensors; overflow of the extents' product and partially transferred state are not reachable from them.",
  [H], [("tensor<T>::get_size", H), ("tensor constructors and assignment", H), ("copy_from / move_from", H), ("tensor<T>::load", H)])
p("C12", "Every archive written has PKZIP structure",
  "For every sequence of writes followed by closing, the bytes produced are, per entry, a PKZIP local file header, the entry name, the ZIP64 extra field when one is needed, and the entry's data; then one central-directory header per entry in the same field layout; then the end-of-central-directory record as the last bytes. Each field has the width, position and little-endian encoding that PKZIP prescribes.",
  ["inputs", "histories"], "all entry names, sizes, compression methods and numbers of entries",
  "The tests compare two three-entry archives byte for byte; the ZIP64 branches and other counts are never written.",
  [Z, H], [("write_local_header", Z), ("write_central_directory_header", Z), ("write_end_of_central_directory", Z), ("write_zip64_extra / determine_extra_length", Z)])
p("C13", "The directory of an archive describes exactly the entries written",
  "In every archive produced, each entry's recorded checksum is that of its uncompressed bytes, its sizes are those of the bytes before compression and of the bytes stored, its method is the one applied, and its offset is where its local header starts; local and central headers agree; and the directory lists each successfully written entry once, with the end record holding the true number of entries, directory size and directory offset.",
  ["inputs", "histories"], "all sequences of writes with either compression method",
  "Two fixed archives are compared; the relation must hold for every history of writes.",
  [Z, W], [("write_file", Z), ("close", Z), ("npy_crc32 / npy_deflate", W)])
p("C14", "No size, offset, count or name length is silently truncated",
  "A value that does not fit the field of the file format that carries it (header length, entry size, offset, number of entries, directory size and position, name length) is either stored in the format's wider form or refused with an exception before anything inconsistent is written. No archive or header is ever produced in which such a field holds the value modulo the field's width.",
  ["inputs", "histories"], "all array sizes, archive sizes, entry counts and name lengths",
  "Reaching the limits takes gigabytes or tens of thousands of entries; no test does.",
  [Z, H, W], [("write_file / close", Z), ("write_shared_header", Z), ("write_npy_header", H), ("npy_crc32", W)])
p("C15", "The archive reader takes every field from where PKZIP puts it",
  "For every archive the reader decodes each header field at the position, width and byte order prescribed by PKZIP, takes 64-bit values from the ZIP64 extra field exactly for the fields whose 32-bit form is the placeholder, in the prescribed order, and finds the next header or the entry's data after the name, the complete extra field and the comment, whatever their lengths.",
  ["inputs"], "all archives: names, extra fields, comments, ZIP64 forms",
  "Fixtures come from two producers with one layout each; ZIP64 central entries, foreign extra fields and comments do not occur in them.",
  [Z], [("read_local_header / read_central_directory_header", Z), ("read_zip64_extra", Z), ("read_end_of_central_directory / read_entries", Z)])
p("C16", "Archive data is returned only after every integrity check passed",
  "An entry's contents are returned, parsed or peeked at only if the signatures of the end record, central header and local header were right, local and central headers agree in name, checksum, method and both sizes, the compression method is a supported one, the decompressed data has the recorded size and its CRC-32 equals the recorded checksum. Otherwise an exception is thrown.",
  ["inputs", "fault_sequences"], "all corruptions of all archives",
  "No test corrupts an archive's contents; only a file that is not an archive at all is tried.",
  [Z, W], [("assert_sig", Z), ("file_entry::check", Z), ("read_file", Z), ("npy_inflate", W)])
p("C17", "A truncated or unreadable archive is refused",
  "Opening or reading an archive from which any header byte could not be read (the file is shorter than an end record, offsets point outside, headers are cut off) ends in an exception; no directory entry is ever made up from bytes that were not read.",
  ["inputs", "fault_sequences"], "all truncation points and offsets, any read failure",
  "Not exercised by any test; requires every truncation point.",
  [Z], [("assert_sig", Z), ("read16/read32/read64", Z), ("read_entries / read_*_header", Z)])
p("C18", "Archive names resolve consistently in every operation",
  "Writing under a name stores it with the suffix .npy added exactly when it does not already end in it; for every name, containment holds exactly when reading or peeking under that name finds an entry, looking first for the name itself and then for the name with .npy; a name that is not found raises std::invalid_argument. The list of keys holds every entry's stored name, sorted.",
  ["inputs", "histories"], "all names, including short ones and near-misses of the suffix, all archives",
  "A few names are tried; the suffix rule has boundary cases, and containment is never asked for a suffix-less name.",
  [H, Z], [("npz*writer::write", H), ("read_file", Z), ("contains / keys", Z)])
p("C19", "A writer finalises its archive exactly once and refuses later writes",
  "For every history of operations, the directory and end record are produced exactly once, by the first close or, failing that, by destruction; nothing is added to the archive afterwards, a write after closing throws, and closing again has no effect. A write that fails validation adds neither bytes nor a directory entry, so the archive remains valid without it.",
  ["histories", "fault_sequences"], "all sequences of write, close, str and destruction, including failing writes",
  "One write-after-close and one unsupported method are tried; histories are unbounded.",
  [Z, H], [("m_closed", Z), ("npz*writer::close / destructor / write_file", Z), ("npz*writer::write", H)],
  state=[("m_closed", "whether the central directory has been produced", "include/npy/npy.h npzstringwriter, npzfilewriter")])
p("C20", "Data that could not be written is reported",
  "If the operating system refuses any byte of a file being saved by path or of an archive file being written (unopenable path, full disk, I/O error), the save, write or close call that ends the operation throws; it never returns normally having lost data. Destroying a writer never terminates the process because of such an error.",
  ["fault_sequences", "inputs"], "all write faults at all points",
  "Tests only try an unopenable path through one function; no fault is injected.",
  [H, Z], [("save(path)", H), ("npzfilewriter::write_file / close / destructor", Z)])
p("C21", "Compression never yields partial data and always releases its state",
  "For every input, compressing or decompressing returns only when the codec has reported the end of its stream, with all produced bytes kept in order; any other outcome is an exception, and an exception is thrown only when the codec reported an error or the input ended before its stream did. The codec is given buffers no larger than they are, and its state is released exactly once on every way out, normal or exceptional, and not used afterwards.",
  ["inputs", "fault_sequences"], "all byte strings, valid or not, and every exit path",
  "Tests decompress valid small streams; corrupted ones and leaks on error paths are not observed.",
  [W], [("npy_deflate", W), ("npy_inflate", W)])
p("C22", "Independent objects can be used from different threads",
  "Operations on distinct tensors, headers, streams, readers and writers share no mutable state inside the library, so running them concurrently gives the same results as running them one after the other, in every schedule.",
  ["schedules"], "all interleavings of operations on distinct objects",
  "Tests are single-threaded; a race shows only in rare schedules.",
  [N, D, Z, W, T, H], [("parser buffers", N), ("type-code tables", D), ("ZIP constants", Z)])
p("C23", "In-memory and on-disk archives behave identically",
  "For every operation the two archive variants share, the in-memory and the file-based writer produce the same bytes and accept or refuse the same calls, and the in-memory and the file-based reader return the same keys, headers and tensors and refuse the same inputs; every overload of a read returns the tensor it read.",
  ["inputs", "histories"], "all operations common to npzstringwriter/npzfilewriter and npzstringreader/npzfilereader",
  "The tests use some operations on one variant and others on the other; a divergence in an operation tried on one side only goes unseen.",
  [H, Z], [("npzstringwriter / npzfilewriter", H), ("npzstringreader / npzfilereader", H)])
p("C24", "Any tensor type with the documented members works everywhere",
  "A user-defined tensor type that offers only the documented members (load, save, shape, ndim, dtype, fortran_order) can be passed to every templated save, load, write and read operation, const or not; the library requires nothing else of it.",
  ["programs"], "all client programs using a custom tensor type",
  "The test's custom tensor has many more members than documented and is only written, so an added requirement or a broken overload is not noticed.",
  [H], [("save / load templates", H), ("npz*writer::write, npz*reader::read", H)])
p("C25", "Read-only tensors cannot be modified and writers cannot be duplicated",
  "No program that only holds a const tensor can obtain a mutable reference, pointer or iterator to its elements or metadata or call an operation that changes it; values are never handed out by mutable reference except through the non-const element access, iteration and data functions; and archive readers and writers, which own a stream, cannot be copied.",
  ["programs"], "all client programs",
  "Tests are programs that compile; that other programs must not compile is out of their reach.",
  [H], [("tensor<T> accessors", H), ("npz*writer / npz*reader members", H)])
p("C26", "A failed read leaves an archive reader usable",
  "Whatever operations were tried on an archive reader before, including ones that threw, reading, peeking at or testing an entry gives the same result as it would on a freshly opened reader.",
  ["histories", "fault_sequences"], "all histories of operations on one reader",
  "Tests read intact entries once each; a failing read followed by a good one is never tried.",
  [Z, H], [("read_file", Z), ("npz*reader members", H)])
p("C27", "Checksums are PKZIP's CRC-32 over the whole input",
  "For every byte string the checksum computed is the CRC-32 of PKZIP (polynomial 0xEDB88320, initial and final complement) of all its bytes, and the fixed code tables used for compressing and for decompressing are those of the DEFLATE specification and agree with each other.",
  ["inputs"], "all byte strings; all entries of the constant tables",
  "One checksum of one file is compared; a wrong entry of a constant table affects only inputs that reach it.",
  ["src/miniz/miniz.cpp", W], [("mz_crc32", "src/miniz/miniz.cpp"), ("npy_crc32", W), ("tinfl_decompress and tdefl tables", "src/miniz/miniz.cpp")])
p("C28", "The library reports one version everywhere",
  "The version visible to programs as macros and version string is the version the package is built, installed and distributed as.",
  ["configurations"], "all places that state the version",
  "No test looks at the version.",
  [H, "VERSION", "vcpkg.json", "ports/matajoh-libnpy/vcpkg.json"], [("NPY_VERSION_* macros", H), ("project version", "CMakeLists.txt")])
p("C29", "The boolean element type keeps truth values",
  "For every value of any type convertible to bool, constructing or assigning a boolean from it and converting back gives that value's truth value, its storage is exactly one byte holding 1 for true and 0 for false, and a default boolean is false.",
  ["inputs"], "all source types and values",
  "Tests assign bool values only.",
  [H], [("npy::boolean", H)])
p("C30", "Compressed data decompresses to the original bytes",
  "For every byte string, decompressing the result of compressing it gives the same bytes back, and every stream a conforming DEFLATE encoder produces is decoded to its contents.",
  ["inputs"], "all byte strings and all DEFLATE streams",
  "Only a few small arrays are compressed; match lengths, block types and window wrap-around vary with the data.",
  ["src/miniz/miniz.cpp", W], [("tdefl_compress", "src/miniz/miniz.cpp"), ("tinfl_decompress", "src/miniz/miniz.cpp")])
p("C31", "Hostile archives cannot exhaust memory or time",
  "Opening and reading an archive takes memory and time bounded by a fixed multiple of the archive's size and of the sizes it declares and the caller accepts.",
  ["inputs"], "all archives",
  "Needs adversarial inputs and resource measurement.",
  [Z, W, N], [("read_entries / read_file", Z), ("npy_inflate", W)])
p("C32", "An interrupted archive is not mistaken for a complete one",
  "If the process stops at any point before an archive has been closed, what was written so far has no end-of-central-directory record of the archive, so that opening it fails instead of presenting a partial set of entries as the whole.",
  ["crash_points"], "every prefix of the writes of every history",
  "No test stops in the middle of writing.",
  [Z], [("close: directory and end record written last", Z), ("read_entries: end record required at the end of the file", Z)])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
