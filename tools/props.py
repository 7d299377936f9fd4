#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it; both files are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/"
ALL = [H + x for x in ("surf.hpp", "louds_dense.hpp", "louds_sparse.hpp", "bitvector.hpp", "rank.hpp", "select.hpp", "suffix.hpp", "label_vector.hpp")]
BLD = ALL + [H + "surf_builder.hpp"]
TESTS = "the unit tests build a few word and integer lists with a handful of suffix settings and run them sequentially"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, na=na, observe=observe))


prop("C01", "Read-only operations modify nothing shared",
     "Point and range lookups, counts, seeks, size and height queries and saving of a built or loaded filter, and the read-only operations of an iterator, write nothing but their own result: not the filter, not the keys or iterators passed in, not any global or static state. Advancing an iterator changes that iterator only. Threads may therefore query one filter concurrently without synchronisation.",
     ["schedules", "inputs"], "every interleaving of queries by any number of threads, every filter and key",
     "a data race shows only under an unlucky schedule; " + TESTS, ALL,
     [("point lookup", H + "surf.hpp SuRF::lookupKey"), ("range lookup", H + "surf.hpp SuRF::lookupRange"), ("seeks and counts", H + "surf.hpp SuRF::moveToKeyGreaterThan, SuRF::approxCount"), ("iterators", H + "surf.hpp SuRF::Iter")],
     "interprocedural points-to and write-effect analysis of the IR", "proof",
     "every store, memory intrinsic, release and external call of 22 fully inlined operations; library code outside the headers is trusted to write only through non-const arguments")
prop("C02", "Answers depend only on the filter and the arguments",
     "No building, loading, query or iterator operation reads mutable global or static state, the clock, the environment or a random source, and no query decision depends on the numeric address of an object. The same filter contents and arguments therefore always give the same answer, whatever ran before, in whichever process.",
     ["inputs", "histories", "schedules"], "every history of earlier operations in the process, every placement of objects in memory",
     "a test sees one history and one memory layout per run", ALL + [H + "surf_builder.hpp"],
     [("queries", H + "surf.hpp SuRF"), ("construction", H + "surf_builder.hpp SuRFBuilder"), ("suffix hashing", H + "hash.hpp")],
     "interprocedural dataflow over the IR: sources of hidden input", "proof",
     "all loads of globals, external calls and address-to-integer conversions in the inlined operations; whether memory is initialised is C06")
prop("C03", "A filter's life releases every block exactly once",
     "Destroying a filter, whether built from keys or loaded from an image and for every suffix type, releases each block that building or loading allocated for it exactly once and with the form of delete that matches its allocation. Building and saving leave no other block behind, and nothing is used after its release.",
     ["inputs", "configurations", "histories"], "all key sets, suffix settings, with and without dense levels, built and loaded",
     "no test checks for leaks, and loaded filters are destroyed in few configurations", ALL + [H + "surf_builder.hpp"],
     [("destruction", H + "surf.hpp SuRF::destroy"), ("construction", H + "surf.hpp SuRF::create"), ("loading", H + "surf.hpp SuRF::deSerialize")],
     "ownership typestate over abstract heaps (abstract interpretation)", "proof",
     "ownership graph of the filter after building and after loading, followed through destroy; blocks managed by standard containers are trusted to the containers")
prop("C04", "Image size, writer and reader agree",
     "For every filter and suffix type, the size announced for its image is exactly the number of bytes saving produces, padding included. Loading reads every part from the place saving put it, stops where saving stopped, and recreates every stored number, every array with its length, and the suffix settings.",
     ["inputs", "configurations"], "every filter contents, every suffix type and length",
     "tests save and load a few fixed filters whose sizes happen to be aligned alike", ALL,
     [("saving", H + "surf.hpp SuRF::serialize"), ("loading", H + "surf.hpp SuRF::deSerialize"), ("announced size", H + "surf.hpp SuRF::serializedSize")],
     "symbolic image layout by abstract interpretation; term equality of writer, reader and size", "proof",
     "sizes are compared as unbounded integers (no wrap-around); source buffers are assumed 8-byte aligned, as the reader requires")
prop("C05", "A loaded filter is independent of its source; images hold no addresses",
     "A filter loaded from a buffer keeps no pointer into that buffer, and loading does not change the buffer, so it may be freed, reused or loaded again. A saved image contains no memory address.",
     ["inputs", "histories"], "every image, every use of the source buffer after loading",
     "tests keep the source buffer alive and unchanged", ALL,
     [("loading", H + "surf.hpp SuRF::deSerialize"), ("saving", H + "surf.hpp SuRF::serialize")],
     "pointer escape analysis of the IR", "proof", "all objects reachable from a loaded filter, all constructs writing the image")
prop("C06", "Building and saving leave nothing undefined",
     "Every number and every array element of a built or loaded filter has been given a defined value by the time construction returns, and every byte of a saved image, padding included, is written. Building the same keys with the same settings and saving therefore gives byte-identical images.",
     ["inputs", "configurations"], "every key set and setting; every previous content of the allocated memory",
     "fresh memory is mostly zero in a test process, so a missing initialisation is invisible", BLD,
     [("construction", H + "surf.hpp SuRF::create"), ("saving", H + "surf.hpp SuRF::serialize")],
     "definite-initialisation analysis over abstract heaps with array-sweep summaries", "proof",
     "array sweeps by counted loops, block copies and fills are recognised; elements are covered as byte ranges with symbolic ends")
prop("C07", "Assertions never change behaviour",
     "Evaluating an assertion has no effect: with assertions compiled in (and passing) or compiled out, every operation performs the same writes, calls and releases. No operation relies on a statement inside an assertion.",
     ["configurations", "inputs"], "both build modes, all inputs",
     "the tests run in one build mode only", BLD,
     [("assertions", H + "*.hpp")], "purity analysis of assertion conditions; comparison of the two builds' IR", "proof",
     "every assertion in the public headers")
prop("C08", "Every bit shift stays within the word",
     "No operation shifts a machine word by a negative count or by the word's width or more, for any keys and any suffix settings in the documented range (hash and real lengths summing to at most 64 bits).",
     ["inputs", "configurations"], "all suffix lengths 0..64, all positions in bit vectors",
     "tests use few suffix lengths, and out-of-range shifts give plausible results on the test machine", BLD,
     [("bit vectors", H + "bitvector.hpp"), ("suffixes", H + "suffix.hpp"), ("select", H + "select.hpp")],
     "value-range analysis with linear constraints on the guards of each shift", "proof",
     "every shift by a non-constant count in the inlined operations")
prop("C09", "Key bytes are unsigned and keys are length-delimited",
     "Keys are arbitrary byte strings: bytes are ordered and indexed as values 0 to 255, and a zero byte, or any other byte value, neither ends a key nor has a special meaning when it occurs in a key a caller passes.",
     ["inputs"], "every byte value at every position of every key",
     "tests use ASCII words and big-endian integers with few distinct high bytes", BLD,
     [("key handling", H + "louds_dense.hpp"), ("key handling", H + "louds_sparse.hpp"), ("construction", H + "surf_builder.hpp")],
     "type and dataflow lint over the IR", "proof",
     "all sign extensions, byte comparisons, and C-string calls in the inlined operations")
prop("C13", "Reported memory usage counts everything a filter owns",
     "getMemoryUsage() of a built or loaded filter is the total size of the objects the filter consists of and of the contents of all their arrays, never more than what was allocated, for every suffix type and with or without dense levels.",
     ["inputs", "configurations"], "all key sets and settings, built and loaded",
     "no test calls it", ALL, [("usage", H + "surf.hpp SuRF::getMemoryUsage")],
     "symbolic sizes by abstract interpretation; comparison of terms", "proof",
     "the reported term is compared with the sizes of all blocks of each abstract filter")
prop("C17", "Headers stand alone and may be included in many units",
     "Each public header compiles as the only header of a translation unit and together with any other in either order. Including the headers in several units of one program gives neither duplicate definitions nor separate copies of mutable state.",
     ["programs"], "every set of translation units and order of inclusion",
     "each test program is a single unit including headers in one order", BLD + [H + "config.hpp", H + "hash.hpp", H + "popcount.h"],
     [("headers", H)], "compile-time witnesses and symbol-linkage analysis", "proof", "all headers alone and in ordered pairs, two compilers")

prop("C18", "Wide loads stay inside their array",
     "Queries and iterators that examine an array with loads wider than its elements (the vectorised label search) never read past the block: in built and in loaded filters the array is followed by enough bytes for a load starting at its last element.",
     ["inputs", "configurations"], "all label counts, all positions, built and loaded filters",
     "a read a few bytes past a heap block goes unnoticed without a memory checker and depends on the size class of the block", ALL,
     [("label search", H + "label_vector.hpp LabelVector::simdSearch"), ("allocation", H + "label_vector.hpp LabelVector")],
     "access-width analysis against symbolic block sizes", "proof",
     "all loads from the filter's arrays; that a load starts inside the array is assumed")
prop("C21", "Keys are read only within their length",
     "Building from a sorted list of distinct, non-empty keys, and every query and iterator operation given any key, read key characters only at positions before the key's length: never the terminating zero byte as if it were a key byte, and never what follows it in memory.",
     ["inputs"], "all key lengths, levels and suffix settings (hash and real lengths summing to at most 64 bits), prefix keys and binary keys",
     "tests use keys longer than the suffix or of equal length, and std::string's terminator hides reads one past the end", BLD + [H + "hash.hpp"],
     [("real suffixes", H + "suffix.hpp BitvectorSuffix::constructRealSuffix"), ("hashing", H + "hash.hpp Hash"), ("shared prefixes", H + "surf_builder.hpp SuRFBuilder::insertKeyBytesToTrieUntilUnique"), ("traversal", H + "louds_dense.hpp, " + H + "louds_sparse.hpp")],
     "abstract interpretation with symbolic key lengths; linear facts and inductive bounds at each character read", "proof",
     "every load and block read of key characters in construction and in the operations that take a key; where only sortedness of the keys bounds the read, the source's own assertion is taken as the precondition")
prop("C20", "A read-only filter or iterator offers every read and no change",
     "Through a const filter or a const iterator every reading operation can be called (lookups, seeks, counts, sizes, saving, an iterator's validity, flag, key, suffix and comparison), iterators and keys are returned by value and can be copied and kept, and every operation that would change the object is rejected at compile time; approximate counts and sizes come back as unsigned 64-bit values and comparison as a signed one.",
     ["programs"], "every program that holds a filter or iterator by const reference",
     "a test is a program that compiles: it cannot show that another one must not", [H + "surf.hpp"],
     [("filter", H + "surf.hpp SuRF"), ("iterator", H + "surf.hpp SuRF::Iter")],
     "type-level compile and compile-fail witnesses", "proof",
     "the witnesses listed in the evidence, under two compilers")
prop("C16", "No operation decides by a value that was never set",
     "Every iterator handed out by a seek has all the members that later operations rely on set, on every path of the seek and for every filter, whatever the memory held before; and no query or iterator operation branches on, or answers with, a number of a local variable or temporary that no path has given a value. Two equal calls in differently filled memory therefore give the same flags, keys and positions.",
     ["inputs", "configurations"], "all keys, suffix types, with and without dense levels, whatever the memory held before",
     "fresh memory is mostly zero, which is the right value for most flags: a test passes by luck", ALL,
     [("iterator construction", H + "surf.hpp SuRF::Iter"), ("dense seeks", H + "louds_dense.hpp LoudsDense::Iter"), ("sparse seeks", H + "louds_sparse.hpp LoudsSparse::Iter")],
     "definite-initialisation analysis (abstract interpretation with marked unset values, path conditions at joins)", "proof",
     "members of the iterator and numbers of locals; the elements of containers are set by resizing; default-constructed iterators are not used before assignment")

prop("C37", "A loaded filter answers like the original",
     "Saving a filter and loading the image gives a filter on which every query, seek and iterator operation decides exactly as on the saved one: every number, array and part of a filter that those operations read is the same in both, for every suffix type and suffix length, with and without dense levels.",
     ["inputs", "configurations"], "all key sets, suffix settings and queries",
     "tests load filters of two key lists with a few suffix lengths and compare sampled queries", ALL,
     [("saving and loading", H + "surf.hpp SuRF::serialize, SuRF::deSerialize")],
     "points-to analysis of what queries read, and symbolic interpretation of building, saving and loading compared on those members", "proof",
     "equality of the two representations on everything queries read; that operations have no other input is C02 and C16")

NA = [
    ("C30", "A stored key is always found", "A point lookup never answers 'absent' for a key that was in the key set.", "inputs", "all key sets and keys",
     "tests look up the keys of a few lists", "depends on the numeric content of the bit vectors for every key set (rank and select arithmetic over runtime data), which no static argument in reach bounds"),
    ("C31", "A non-empty range is never reported empty", "A range lookup never answers 'no' when a key of the key set lies in the range.", "inputs", "all key sets and ranges",
     "tests probe neighbouring keys of a few lists", "same as C30: a numeric invariant of the encoded trie over all key sets"),
    ("C32", "Iteration is ordered and complete", "Stepping from the first position visits one position per stored key, in byte order, and stepping back visits them in reverse.", "inputs", "all key sets and step sequences",
     "tests iterate a few lists forward and backward", "functional correctness of the encoded trie over unbounded runtime data"),
    ("C33", "Approximate counts are within the documented error", "A count over a range undercounts by at most two.", "inputs", "all key sets and ranges",
     "tests sample ranges of two lists", "a numeric relation between counts of bits in runtime bit vectors"),
    ("C34", "The false-positive rate falls with the suffix length", "Longer suffixes reject more absent keys.", "inputs", "all key distributions",
     "tests do not measure it", "a statistical property of the data, not of the source"),
    ("C35", "Rank, select and population counts are exact", "The bit-vector primitives return the mathematical rank and select for every vector and position.", "inputs", "all bit vectors",
     "tests compare a few vectors", "bit-level arithmetic over runtime contents (a solver or exhaustive execution would be needed)"),
    ("C36", "Bit-vector accesses stay inside the array", "Every word index computed from rank and select stays below the array length.", "inputs", "all filters and keys",
     "sanitizers see sampled inputs only", "the indices are results of rank and select over runtime data; C18 and C21 claim the parts that are decidable"),
    ("C38", "Position counters never overflow", "Positions, counts and sizes never exceed 32 bits for supported key sets.", "inputs", "key sets up to the documented capacity",
     "tests are far below the limit", "the bound is a runtime quantity and the documentation states no capacity"),
]


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "sa", "checks")) if f.endswith(".py") and f[0] == "c"}
    out = open(os.path.join(V, "properties.jsonl"), "w")
    checks, na = [], []
    for p in P:
        out.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                              "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        if p["na"] or p["id"] not in have: na.append({"property": p["id"], "reason": p["na"] or "check under construction"})
        else: checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    for id, title, st, over, text, why, reason in NA:
        out.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": [over], "text": text}, "why_tests_cant": why,
                              "anchors": {"files": BLD, "mechanism": [{"name": "filter", "where": H + "surf.hpp"}]}}) + "\n")
        na.append({"property": id, "reason": reason})
    json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
               "notes": "All checks read the IR of /repo's headers (and the headers themselves); nothing of /repo is executed."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
