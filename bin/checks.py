"""Which harness decides which property."""
BFS = "explicit-state model checking of the compiled library (breadth-first over operation histories, canonical heap states)"
ENUM = "exhaustive bounded enumeration of inputs executed on the compiled library against a reference model"
CHECKS = {
    "C01": dict(src=["avl.cpp"], technique=BFS, note="all histories up to the stated tree sizes, real code against an ordered-map model; larger sizes by scripted histories"),
    "C02": dict(src=["avl.cpp"], technique=BFS, note="comparison count monitored for every key in every reachable tree shape up to the stated size"),
    "C04": dict(src=["list.cpp"], technique=BFS, note="all histories up to the stated list sizes, real code against a sequence model"),
    "C03": dict(src=["hash.cpp"], technique=BFS, note="all histories over small key universes for 9 hash functions x 4 capacities, real code against a map model; larger sizes by scripted histories"),
    "C05": dict(src=["prq.cpp"], technique=BFS, note="all histories up to the stated queue sizes incl. ties and repeated elements, real code against a multiset model; larger sizes by scripted histories"),
    "C06": dict(src=["prq.cpp"], technique=BFS, note="removal by the latest locator of every contained element in every reachable heap arrangement up to the stated size", assumptions=["locators are claimed for elements contained once; for an element enqueued repeatedly the library reports only one of its places"]),
    "C08": dict(src=["intset.cpp"], technique=BFS, note="all subsets of small sets and of word-boundary elements of larger ones, every query from every start; sizes up to INT_MAX by scripted cases", assumptions=["searching and emptiness are not claimed for sizes above INT_MAX: the search functions return int"]),
    "C10": dict(src=["alloc.cpp"], technique=BFS, note="all histories of the primitives over two blocks and two hooks, all boundary products; real code against a call-log model", assumptions=["the default allocator aborts when memory is refused, which counts as refusal"]),
    "C07": dict(src=["bytes.cpp"], technique=BFS, note="saturated for tiny arrays; all histories up to the stated length at every growth boundary, with every stream answer; real code against a byte-string model", assumptions=["a zero-length operation on an array of maximum size 0 may succeed or fail", "source data overlapping the array is claimed only for copies that do not extend it", "a stream callback reports at most what it was offered"]),
    "C11": dict(src=["base64.cpp"], technique=ENUM, note="all byte strings up to 3 bytes, all texts over character classes up to 7 characters, all special-character pairs, every destination size, against a reference codec", assumptions=["the two special characters are distinct and not themselves base64 letters, digits, '=', white space or NUL (decoding)", "EOVERFLOW of decoding is unreachable with real buffers"]),
    "C12": dict(src=["utf8.cpp"], technique=ENUM, note="every byte sequence up to 3 bytes, every 4-byte sequence with a 4-byte lead, every code point with every room, all short strings over boundary bytes, against Unicode Table 3-7", assumptions=["encoding of surrogates and out-of-range values is not claimed"]),
    "C16": dict(src=["url.cpp", "locale.cpp"], technique=ENUM, note="every byte and byte pair, all texts over character classes, every reserve/unreserve pair, all encoder life-cycle histories, against a reference codec", assumptions=["a byte both reserved and unreserved is not claimed"]),
    "C18": dict(src=["ascii.cpp", "locale.cpp"], technique=ENUM, note="every byte, every pair of bytes, all pairs of short strings with every bound, every sub-string, under a Turkish-locale stand-in of the C library's character functions"),
    "C19": dict(src=["split.cpp", "locale.cpp"], technique=ENUM, note="all short strings over alphabets with delimiters and white space, all delimiter strings, limits and sub-strings, all result lengths, against a reference", assumptions=["NUL as delimiter character and an empty delimiter string are not claimed"]),
    "C20": dict(src=["date.cpp"], technique=ENUM, note="every day of 48000 years at 10 times of the day, every second of sample days, the representable limits and all powers of two, against a running calendar", assumptions=["tm_yday is documented as unspecified"]),
    "C21": dict(src=["num.cpp"], technique=ENUM, note="every sign and exponent with all few-bit and run significands, all bit fields of the relevant exponents, against the hardware conversion", assumptions=["double is IEEE 754 binary64 on the checking machine", "the output of a failed conversion is not claimed"]),
    "C22": dict(src=["num.cpp"], technique=ENUM, note="all pairs of boundary integers, all strings and blobs up to 3 bytes for collisions, all short ones at every alignment and surroundings"),
    "C13": dict(src=["unicode.cpp"], technique=ENUM, note="every code point and a million values beyond, against a committed condensation of the bundled data files", assumptions=["the case mappings are those of upper- and lower-case letters (Lu, Ll); other code points map to themselves"]),
    "C14": dict(src=["unicode.cpp"], lib="plain", technique=ENUM, note="every code point in several contexts, all pairs of code points that take part in normalization, all short words over interacting code points, every output size, against a reference written from UAX #15", assumptions=["recomposition is claimed for canonically decomposed input", "recomposition may refuse runs of more than 100 marks"]),
    "C15": dict(src=["unicode.cpp"], technique=ENUM, note="every code point in several contexts, all short names over 20 symbol kinds, all label and name lengths around the limits, against a reference written from UTS #46 and RFC 3492", assumptions=["names that are invalid only by rules the library does not claim to check (hyphens in third and fourth place, bidi, joiners, literal xn-- labels) may be refused or encoded by the same rules"]),
    "C17": dict(src=["bounds.cpp"], technique=ENUM, note="every conversion on all short inputs in read-only memory flush against inaccessible pages at both edges, with every destination size and 13 surroundings; the library also built with AddressSanitizer"),
    "C23": dict(src=["sched.cpp"], lib="tsan", technique="stateless model checking of the compiled library under a controlled scheduler (every memory access a scheduling point, partial-order reduction)", note="all pairs of operations of all modules; single preemptions at every access and every instruction, by complete calls in the same thread, and all interleavings of dependent accesses up to the preemption bound"),
    "C09": dict(src=["memory.cpp", "avl.cpp", "list.cpp", "hash.cpp", "prq.cpp", "bytes.cpp", "intset.cpp"], defs=["-DMC_COMBINED"], technique=BFS, note="all container histories up to the stated sizes and all short text inputs, success and failure paths, with strict accounting in the allocator hook and every other allocator trapped"),
    "C24": dict(src=["cxx.cpp"], technique=BFS, note="all histories of owning-pointer operations over a few objects of each kind, with every block of the allocator hook accounted for after each step", assumptions=["the deleters are observed through std::unique_ptr's operations; the pointers are not copied"]),
    "C25": dict(src=["cost.cpp"], lib="tsan", technique=ENUM.replace("against a reference model", "with every memory access counted"), note="every operation at every size up to 130 and around powers of two, in several orders and on several kinds of text; growth of the access counts and the depth of the stack monitored", assumptions=["costs are judged by their growth (a factor of four over that of small objects), not by their constants", "host name conversion is bounded by the length limits; reordering long runs of combining marks is documented as inefficient", "popping or getting any element of a hash table may scan the table"]),
    "C26": dict(src=["tables.cpp"], lib="tables", libs=["-ldl"], technique=ENUM.replace("inputs executed on the compiled library", "sets of data files, each built into the library,"), note="all words of a few kinds of character, of quick-check values, of IDNA statuses and of decomposable pairs, and every number of runs and mappings up to a bound; every code point of every resulting library compared", assumptions=["data files have the form of the bundled ones: ascending code points, a status for every code point, at least one mapping, at most two characters in a canonical decomposition, which starts with a character of class 0"]),
}
