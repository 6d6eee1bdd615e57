#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 'C01': ('abstract interpretation: gated value graphs of every writer, loops summarised to closed forms, compared with the closed form the property demands, both host byte orders',
         'Every shape of input at once: any number of elements, any values, both byte orders of file and host. Trusts the model of the standard library (streams, strings, vectors).'),
 'C02': ('abstract interpretation: gated value graphs of every reader, loops summarised to closed forms, compared with the closed form the property demands, both host byte orders',
         'Every file content, element count and byte order at once. Trusts the model of the standard library.'),
 'C04': ('abstract interpretation: closed form of the header bytes for every code, order and shape, compared with the closed form the NPY format demands; differing forms are searched for a malformed valuation',
         'Every type code, order and shape of rank below 2^31. Trusts the model of the standard library.'),
 'C09': ('abstract interpretation of every access path with refutation of the accepting paths whose index is out of range (linear and inductive facts, trace partitioning)',
         'All shapes of rank up to 2^50 and every index, for the element types of the library.'),
 'C10': ('abstract interpretation: closed form of the position read or written, compared with the mathematical index formula',
         'All shapes and every index, for the element types of the library.'),
 'C11': ('abstract interpretation: invariant (element count = product of extents) established by every constructor, assignment and loader, with inductive overflow facts',
         'All shapes, for the element types of the library.'),
 'C22': ('effect analysis over the call graph: writes and escapes of static-storage objects',
         'Every function the public operations reach is inspected; a shared mutable object that is written, or a C function with process-wide effects that is called, is reported. Trusts the C++ standard library not to share mutable state itself.'),
 'C24': ('compile witnesses type-checked against the current headers',
         'Decides that every templated operation type-checks for tensor types with only the documented members; that it then does the right thing is decided by the other properties.'),
 'C25': ('compile-fail witnesses and result-type analysis of every public member function',
         'Each forbidden program is rejected by the type checker and its legal counterpart accepted; every public member function result is inspected for mutable handles.'),
 'C28': ('cross-check of all version statements (preprocessed macros, VERSION file, package manifests)',
         'Exact for the places that state a version.'),
 'C15': ('abstract interpretation of the archive readers over a symbolic file: every path from opening to data is compared, field by field and position by position, with what PKZIP prescribes; differing paths are refuted by evaluating the facts of the path on concrete archives chosen by the analysis',
         'Any archive content; the first directory entry (two for the list of keys) at an arbitrary position, up to two foreign extra records before the ZIP64 one, sizes below 2^62. Trusts the model of the standard library.'),
 'C16': ('abstract interpretation of the archive readers over a symbolic file: the facts of every returning path must entail each integrity check; paths that do not are refuted by a valuation',
         'Any archive content, both reader classes, read and peek. Bounds as for C15. Checksum and decompression are opaque (C21, C27).'),
 'C17': ('abstract interpretation of the archive readers over a symbolic file of arbitrary length and failure point: the facts of every returning path must entail that every byte used was read',
         'Any length of file and any failed read. Bounds as for C15.'),
 'C18': ('abstract interpretation of the name handling of readers and writers: outcomes of read, peek and contains partitioned by which names the directory holds must correspond',
         'Any names and any directory (a symbolic map); path by path.'),
 'C26': ('abstract interpretation of the archive readers in an arbitrary stream state: every operation must start by clearing the stream and positioning it, so its outcome does not depend on the state before, and no operation, throwing or not, may change the directory',
         'Any state an earlier operation can leave (position, failure and end flags), both reader classes.'),
 'C12': ('abstract interpretation of the archive writers in an arbitrary state: closed form of the bytes appended, compared with the layout PKZIP prescribes; differing forms are parsed by PKZIP\'s rules on valuations',
         'Any number of entries, names, payload sizes and offsets. Compression and checksum are opaque (C21, C27). Trusts the model of the standard library.'),
 'C13': ('abstract interpretation of the archive writers in an arbitrary state: closed forms of the recorded fields and of the directory, compared with the bytes actually stored; loops over entries summarised',
         'Any history of writes with either method, any names and contents. The checksum and compression functions are opaque (C21, C27).'),
 'C14': ('abstract interpretation of the archive writers: every value stored in a field of the format is shown to fit it, or stored in the wider form, or refused; differing paths are refuted by boundary valuations',
         'Every size, offset, count and length. Trusts the model of the standard library.'),
 'C19': ('abstract interpretation of sequences of operations from the states the constructors establish: closed forms of stream and directory after each, inductive over histories',
         'Every history, by induction on the writer state; refused writes included.'),
 'C20': ('abstract interpretation with an explicit model of stream failure and capacity: returning paths must entail that nothing was lost',
         'Every failure point of every file written; sources: the failure semantics of std::ofstream as the C++ standard gives them.'),
 'C32': ('abstract interpretation: the state of the output at each place that emits an end record, and what every reader constructor demands of one',
         'Every history of writes and every point at which it may stop.'),
 'C03': ('abstract interpretation: closed forms of the type-code writer and parser for every element type and byte order, compared with the table of NumPy codes; paths that accept anything else are refuted',
         'Every element type, byte order and host; every string offered to the parser.'),
 'C06': ('abstract interpretation with trace partitioning: every returning path of every load, peek and header read must entail that all bytes were read',
         'Every stream content, length and failure point, for headers and element data of every element type.'),
 'C08': ('abstract interpretation: closed forms of the unicode writer and reader (width, padding, trimming), loops summarised, compared with the closed form the property demands',
         'Any number of strings of any length. Trusts the model of the standard library.'),
 'C29': ('abstract interpretation of every constructor, conversion and assignment of the boolean type, with the layout of the class from the type checker',
         'Every value of every arithmetic source type instantiated by the harness.'),
 'C05': ('grammar extraction by abstract interpretation of the header parser (loops cut at their heads, nondeterministic automata over bytes) and regular-language inclusion of the dialect a user may write in the language accepted; values read off the same automata',
         'Every dictionary of the dialect (any spacing, quoting, key order, shape of any rank: shown for rank up to 3 and then by the loop repeating). Trusts the model of the standard library.'),
 'C07': ('grammar extraction by abstract interpretation of the header parser and regular-language inclusion of the language accepted in the language the format allows; a shortest accepted word outside it is the refutation',
         'Every byte string offered as a header, every locale. Bounds as for C05.'),
 'C21': ('typestate and data-flow analysis of the codec functions over all paths, against a contract model of zlib-style inflate and deflate',
         'Any input length, any filling of the buffers, any sequence of codec answers the contract allows (two consecutive calls of each kind explored, inductive on the loop state). The codec itself is behind its contract (C30).'),
 'C23': ('abstract interpretation of both variants of every shared operation from corresponding arbitrary states, as a relational comparison of their paths: equal conditions and outcomes, or incompatible conditions; otherwise a valuation of both with different outcomes',
         'Writers: any state, any history (inductive on the state). Readers: any archive and directory, bounds as for C15; two directory entries for the list of keys. Default arguments and constructor overloads included. The file system is assumed not to fail (C17, C20).'),
 'C27': ('abstract interpretation over affine forms of GF(2): one iteration of the checksum loop in an arbitrary state against PKZIP\'s register, with closed forms for the bytes covered; constant tables and constant-propagated code lengths compared with RFC 1951',
         'Every byte string, by induction over its bytes; every entry of every recognised table. That the codec uses its tables rightly is C30.'),
}
NA = {
 'C30': 'A round trip through miniz is an equality of run-time byte values over an LZ77/Huffman codec of several thousand lines; no static argument in reach bounds it. What the library itself contributes (buffer discipline, end-of-stream, tables, checksum) is decided under C21, C27 and C13.',
 'C31': 'A quantitative resource bound over run-time sizes; the library deliberately trusts declared sizes, so there is no structural rule whose violation is exactly a violation of the bound.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py setup', checks=[], not_applicable=[],
         notes='All checks are static: the program is never run. See DESIGN.md.')
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check has been built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
