"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
H, N, D, Z, C, T = 'include/npy/npy.h', 'src/npy.cpp', 'src/dtype.cpp', 'src/npz.cpp', 'src/zip.cpp', 'src/tensor.cpp'
p('C01', 'Element bytes follow the requested byte order, for every type and count',
  "Saving a tensor of a numeric or boolean type writes its elements in storage order, each element as exactly its own bytes in the requested byte order (little, big, or the host's for native), the two components of a complex value swapped separately and real part first, and nothing else. Loading interprets the data by the byte order stated in the header and restores every element bit for bit, consuming exactly the bytes of the elements.",
  ['inputs', 'configurations'], 'every element type, byte order, number of elements and bit pattern (including NaN payloads)',
  'the tests compare a handful of small asset files per type; element count, bit patterns and complex big-endian values are sampled once or not at all',
  [D, H], [('write_values<T>, read_values<T>', D), ('native_endian', H)], observe=['npy::save', 'npy::load'])
p('C02', 'A written NPY header is a well-formed, 64-byte aligned version 1.0 header',
  "For every dtype code, order flag and shape the header consists of the magic string, version 1.0, a 16-bit little-endian length equal to the number of bytes that follow it in the header, the dictionary {'descr': '<code>', 'fortran_order': True|False, 'shape': (<dims>), } with every dimension in decimal separated by ', ' (and a trailing comma for one dimension), padding spaces and a final newline; the header's total length is a multiple of 64. A header whose length cannot be stored in 16 bits is refused with an exception and nothing is written.",
  ['inputs'], 'every rank, every dimension up to 2^64-1, both order flags, every dtype code',
  'the tests write fewer than ten shapes, all with short dictionaries; alignment boundaries and headers beyond 255 bytes are not reached',
  [H], [('write_npy_header', H), ('save', H)], observe=['npy::write_npy_header', 'npy::save'])
p('C03', 'Every written header reads back as the same header, consuming exactly its bytes',
  "Reading a header that the library wrote returns the same element type, byte order, order flag, shape and (for unicode) element length, and leaves the stream positioned on the first byte of the data. The same holds for a version 2.0 header with a 32-bit length around the same dictionary.",
  ['inputs'], 'every element type, byte order, order flag, rank and dimensions; header versions 1.0 and 2.0',
  'the tests read back a few fixed headers; the composition of writer and parser over all shapes is never exercised',
  [H, N], [('read_npy_header', H), ('header_info(const std::string&)', N), ('read_shape', N)], observe=['npy::read_npy_header', 'npy::header_info'])
p('C04', 'Saving and loading a tensor gives back an equal tensor',
  "For every tensor, saving it (to a stream or a file, in any byte order) and loading the result gives a tensor with the same shape, the same order flag and bit-for-bit the same elements in the same positions. This includes rank-0 tensors, tensors with zero-sized dimensions, and both C and Fortran order.",
  ['inputs', 'configurations'], 'every element type, shape, order, byte order and element values',
  'the tests round trip a small set of fixed arrays; shapes with zeros, rank 0, high ranks and non-native byte orders are hardly sampled',
  [H, N, D], [('npy::save', H), ('npy::load', H), ('tensor::save / tensor::load', H)], observe=['npy::save', 'npy::load', 'tensor::from_file'])
p('C05', 'Malformed NPY input is rejected with an exception',
  "Loading or peeking input that is not a well-formed NPY stream (wrong magic string, unsupported version, truncated header, a dictionary that is malformed, lacks a key or has an unknown one, an unknown dtype code, a shape that is not a tuple of unsigned integers) throws a standard exception. Loading also throws when the element type differs from the requested one, when the element count overflows, or when the data ends before the last element; it never returns a tensor with made-up content.",
  ['inputs', 'fault_sequences'], 'every byte string and every truncation point',
  'the tests try a few fixed bad inputs; truncation points and corruptions form an unbounded space and release builds skip assert',
  [H, N, D], [('read_npy_header', H), ('header_info(const std::string&)', N), ('from_dtype', D), ('tensor::load', H)], observe=['npy::load', 'npy::peek', 'npy::header_info'])
p('C06', 'dtype codes and element types correspond one to one',
  "For each fixed-size element type and byte order the library gives NumPy's code for it ('|' for one-byte types; native resolves to the host's order), and decoding that code gives back the same type with the same byte order, or native for one-byte types. A code that is none of these is refused with an exception, and the fixed code of the unicode type is refused with std::invalid_argument.",
  ['inputs'], 'all 13 fixed types x 3 byte orders, and every other string as a code',
  'the tests check some codes; unknown codes are an infinite set and each table entry must be right on its own',
  [D, T], [('to_dtype / from_dtype', D), ('tensor<T>::get_dtype', T)], observe=['npy::to_dtype', 'npy::from_dtype', 'tensor::dtype'])
p('C07', 'Multi-indexes address exactly the element NumPy would address',
  "For every shape and order, an in-range multi-index addresses the element at NumPy's C- or Fortran-order position of the flat data, negative indexes count from the end, distinct multi-indexes address distinct elements, and all accessors (call operator with integers or a vector, get, set, ravel) agree. A multi-index of the wrong rank or with any component out of range is refused with std::invalid_argument and no element is touched.",
  ['inputs'], 'every rank, shape, order and (signed or unsigned) multi-index',
  'the tests use a few 2- and 3-dimensional arrays; positions for arbitrary rank and boundaries of every dimension are not enumerable',
  [H], [('tensor::ravel', H), ('tensor::get_ravel_strides', H)], state=[('m_ravel_strides', 'distance of neighbours along each axis', H)], observe=['tensor::operator()', 'tensor::get', 'tensor::set', 'tensor::ravel'])
p('C08', 'Tensor objects keep shape, order and data consistent across copies and moves',
  "A tensor always holds exactly as many elements as the product of its shape, starts with value-initialised elements, and reports the shape and order it was built with; a shape whose element count does not fit in size_t is refused. Copying or assigning gives an equal tensor that is independent of its source (same shape, order, indexing and elements), moving transfers all of them, and copy_from/move_from replace all elements, or, given a different number of items, throw std::invalid_argument and change nothing.",
  ['inputs', 'histories'], 'every element type, shape, order and sequence of copy, move and assignment',
  'the tests copy and move one or two small tensors; a forgotten member only shows for particular shapes or orders after particular operations',
  [H], [('tensor constructors and assignments', H), ('tensor::copy_from / move_from', H), ('tensor::get_size', H)], observe=['tensor'])
p('C09', 'Unicode tensors keep every character of every element',
  "A unicode tensor is written with the length of its longest element as the dtype length in the requested byte order, each element as its characters in 4-byte units in that byte order followed by zero units up to that length, and nothing else. Loading restores every element up to trailing zero characters, which NumPy cannot represent; embedded zero characters and all code points are kept, for any element lengths including all-empty tensors.",
  ['inputs'], 'every number and length of elements, every character value, both byte orders',
  'the tests use a few short words; element lengths are data dependent and the padding logic depends on the maximum over all elements',
  [D, H, N], [('write_values<std::wstring>', D), ('read_values<std::wstring>', D), ('tensor<std::wstring>::dtype', H)], observe=['npy::save', 'npy::load'])
p('C10', 'A closed NPZ writer leaves a structurally valid ZIP archive',
  "The bytes of a closed archive are the local records of the entries back to back in writing order, then one central directory record per entry in the same order, then one end record. Each directory record repeats the name, method, CRC-32 and sizes of its local record and the offset at which that record starts; the recorded sizes are the true sizes of the stored and original data, the CRC-32 is that of the original data, and the end record has the exact number of entries, directory size and directory offset.",
  ['inputs', 'histories'], 'every sequence of writes (names, tensors), both compression methods, string and file writers',
  'the tests compare against archives with a few fixed entries; offsets and sizes depend on the whole history of writes',
  [Z], [('write_file', Z), ('write_local_header', Z), ('close', Z), ('write_end_of_central_directory', Z)], state=[('m_entries', 'records written so far', H)], observe=['npzstringwriter::str', 'npzfilewriter'])
p('C11', 'Tensors written to an NPZ archive are read back equal under their names',
  "Every tensor written to an archive, stored or deflated, in memory or in a file, in any byte order, is read back equal (shape, order, elements) under its name, whatever other entries surround it. The reader's keys are exactly the entry names, sorted, and contains holds exactly for them.",
  ['inputs', 'histories', 'configurations'], 'every set of distinct names and tensors, compression method and byte order',
  'the tests write two fixed arrays; interaction between entries and order of reading is not covered',
  [Z, H], [('write_file', Z), ('read_file', Z), ('read_entries', Z)], observe=['npzstringwriter', 'npzfilewriter', 'npzstringreader', 'npzfilereader'])
p('C12', 'NPZ reading never returns data that fails the integrity checks',
  "Reading or peeking an entry succeeds only if the local record agrees with the directory record on name, method, CRC-32 and both sizes and the CRC-32 of the uncompressed data equals the recorded one. Otherwise, and when any record's signature is wrong or the archive is truncated, a standard exception is thrown.",
  ['inputs', 'fault_sequences'], 'every corruption of an archive',
  'the tests try no or one corrupted archive; each field of each record can be damaged on its own',
  [Z], [('file_entry::check', Z), ('read_file', Z), ('assert_sig', Z)], observe=['npzstringreader', 'npzfilereader'])
p('C13', 'NPZ writers finish the archive exactly once and refuse writes afterwards',
  "Closing a writer finishes the archive, closing it again changes nothing, and destroying an unclosed writer finishes the archive as closing does. A write after closing throws std::runtime_error and leaves the archive as it was.",
  ['histories'], 'every sequence of write, close and destruction on string and file writers',
  'the tests only write then close; other call orders are histories',
  [Z, H], [('npzstringwriter::close, ~npzstringwriter', Z), ('npzfilewriter::close, ~npzfilewriter', Z), ('write', H)], state=[('m_closed', 'archive finished', H)], observe=['npzstringwriter', 'npzfilewriter'])
p('C14', 'Entry names get the .npy suffix exactly once and are found with or without it',
  "Writing under a name stores the entry as that name, with .npy appended unless it already ends in .npy. Reading and peeking accept the stored name or the name without its .npy suffix, prefer an exact match, and throw std::invalid_argument for a name that matches no entry.",
  ['inputs'], 'every name (including shorter than four characters, empty, or containing .npy in the middle)',
  'the tests use two names; suffix logic has boundaries at every short length',
  [H, Z], [('npzstringwriter::write / npzfilewriter::write', H), ('read_file', Z)], observe=['keys', 'read', 'peek'])
p('C15', 'Recorded checksums are the standard CRC-32 of the data',
  "The CRC-32 recorded for an entry, and the one checked on reading, is the standard (IEEE 802.3, reflected, as zlib and Python's zipfile compute it) CRC-32 of all the entry's uncompressed bytes. It holds for data of every length, including empty data.",
  ['inputs'], 'every byte string',
  'the tests compare one or two archives; a table or loop error needs particular bytes or lengths',
  [C, 'miniz/miniz.cpp'], [('npy_crc32', C), ('mz_crc32', 'miniz/miniz.cpp')], observe=['npzstringwriter::str', 'npz readers'])
p('C16', 'Compressed entries decompress to the original bytes, for every size',
  "A deflated entry's stored bytes are one complete raw DEFLATE stream whose decompression is exactly the original bytes, for data of every size including empty data and data larger than the internal 1 MiB buffers. Decompressing a stream that is truncated or invalid throws a standard exception instead of returning partial data.",
  ['inputs', 'fault_sequences'], 'every data size (buffer boundaries included) and content, every truncation',
  'the tests compress small arrays that fit in one buffer; the chunked loops are never iterated',
  [C], [('npy_deflate', C), ('npy_inflate', C)], observe=['npzstringwriter', 'npzstringreader'])
p('C17', 'No size, offset, count or name is ever silently truncated in an archive',
  "Writing records a size or offset above the 32-bit limit of the format in a ZIP64 extra field whose stated length matches its content, and refuses with an exception what the format written here cannot express (names longer than 65535 bytes, more than 65535 entries, directory offsets beyond 32 bits). Reading takes sizes and offsets from the ZIP64 extra field exactly for the fields that hold the placeholder 0xFFFFFFFF, in the order size, compressed size, offset, and skips surplus extra data.",
  ['inputs'], 'every 64-bit size and offset, every name length, every entry count, every extra field length',
  'entries above 2 GiB do not occur in unit tests, and the field widths matter only there',
  [Z], [('determine_extra_length / write_zip64_extra', Z), ('read_zip64_extra', Z), ('write_file', Z)], observe=['npz writers', 'npz readers'])
p('C18', 'No input makes the library access memory out of bounds or read garbage',
  "Whatever bytes are given to the loaders, peekers and archive readers, and whatever arguments are given to the tensor accessors, the library performs no out-of-bounds access, no use of uninitialised memory and no undefined behaviour; every call returns or throws a standard exception. Lengths and offsets found in the input are never trusted for addressing.",
  ['inputs', 'fault_sequences'], 'every byte string offered as an NPY file, header dictionary, compressed data or archive',
  'tests only offer valid or mildly invalid files and run without a sanitizer',
  [H, N, D, Z, C], [('read_npy_header', H), ('header_info(const std::string&)', N), ('read_file / read_entries', Z), ('npy_inflate', C)], observe=['npy::load', 'npy::peek', 'npz readers'])
p('C19', 'Calls on different objects and streams never share mutable state',
  "Operations on distinct tensors, streams, writers and readers do not influence each other: no operation modifies any state other than its arguments, its own object and per-thread scratch memory. Hence they can run concurrently in different threads with the results they have when run alone.",
  ['schedules', 'histories'], 'every interleaving of operations on distinct objects',
  'the tests are single threaded; races on shared buffers need particular interleavings',
  [N, D, Z, C, H], [('thread_local BUFFER', N), ('constant tables', D)], state=[('BUFFER', 'parsing scratch memory, per thread', N)], observe=['npy::load', 'npy::save', 'npz readers and writers'])
p('C20', 'Peeking reports exactly what loading would find',
  "Peeking at a stream, file or archive entry returns the element type, byte order, order flag, shape and unicode length stated in its header, which are those of the tensor that loading it produces, and throws where its header is malformed. On a stream it consumes the header and nothing more.",
  ['inputs'], 'every valid file or entry of every element type, shape and order',
  'the tests peek at a few fixed files',
  [H, N, Z], [('npy::peek', N), ('npzstringreader::peek / npzfilereader::peek', Z)], observe=['npy::peek', 'npz peek'])
p('C21', 'npy::boolean keeps the truth value of whatever it is built from',
  "A npy::boolean constructed or assigned from a value of any arithmetic type converts back to exactly the truth value of that value, and is stored as the byte 1 or 0. When loaded from data, every nonzero byte reads as true and is kept unchanged.",
  ['inputs'], 'every value of every integer and floating-point type, every byte',
  'the tests use bool and 0/1 only; values such as 256 or 0.5 expose truncating conversions',
  [H], [('npy::boolean', H)], observe=['npy::boolean', 'tensor<npy::boolean>'])
p('C22', 'What an NPZ reader returns does not depend on what was read before',
  "The result of reading or peeking an entry (tensor, header or exception) depends only on the archive and the name, not on earlier reads, peeks or queries of the same reader, including ones that threw. Reading the same entry twice gives equal results.",
  ['histories', 'fault_sequences'], 'every sequence of operations on one reader, including failing ones',
  'the tests read each entry once, in order, with no failures in between',
  [Z], [('read_file', Z)], state=[('m_input', 'shared input stream with position and error state', H)], observe=['npzstringreader', 'npzfilereader'])
p('C23', 'File functions report failures and write the same bytes as stream functions',
  "save, load and peek with a path that cannot be opened throw std::invalid_argument, as does opening an archive reader on such a path; saving to a path that opens but cannot be written completely throws std::runtime_error. Otherwise the file functions produce and accept exactly the bytes that the stream functions do.",
  ['inputs', 'fault_sequences'], 'every unopenable path, every write failure of the file system, every tensor',
  'tests check one missing path; write failures such as a full disk are not injected',
  [H, N, Z], [('save(path)', H), ('load(path)', H), ('peek(path)', N), ('npzfilereader constructors', Z)], observe=['npy::save', 'npy::load', 'npy::peek', 'npzfilereader', 'npzfilewriter'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
