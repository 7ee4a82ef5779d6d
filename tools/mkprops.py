#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "AVL tree behaves as an ordered map under every operation history",
  "After any sequence of insertions, replacements, detachments, removals and pops, an AVL tree holds exactly the key-value associations an ideal ordered map would hold: size, emptiness, exact lookup, the four neighbour lookups (strictly/weakly before/after, for present and absent keys), first, last and stepping forwards and backwards all agree with that map. Storing under a present key replaces the association (the new key and value objects are in effect and the old association is handed back), storing the very same value again has no effect, and an association handed back or detached keeps its key and value until destroyed. A shallow copy holds the same associations and from then on evolves independently of the original.",
  ["histories", "inputs"], "Every operation history over any totally ordered key set, any comparator (with or without context argument), any tree shape reachable by such histories.",
  "avltest inserts and pops one fixed sequence; it never exercises replacement, the strict neighbour lookups, detach or mutation after copy, and reaches a handful of the reachable tree shapes.",
  ["src/avltree.c", "include/avltree.h"],
  [("recursive insertion with rotations", "avltree.c put/put_left/put_right/rotate_*"), ("detach by exchange with adjacent descendant and relightening", "avltree.c avl_tree_detach/exchange/lighten_*"), ("structural copy", "avltree.c copy_tree")],
  ["avltree.h public functions"], [("left/right/parent/balance", "tree shape", "avltree_imp.h")])
p("C02", "AVL lookups stay logarithmic after every operation history",
  "However the tree was built or copied, no lookup, neighbour lookup, insertion or pop-by-key in an AVL tree of n elements compares the given key with more different stored keys than a height-balanced (AVL) tree of n elements can be deep, which is less than 1.4405*log2(n+2). The bound holds after every single operation of every history of insertions, replacements and deletions, also when keys arrive in sorted order.",
  ["histories"], "Every operation history; the bound is evaluated for every key (present and absent) after every operation.",
  "The tests never count comparisons; a tree with a stale balance factor still answers every lookup correctly, only slower.",
  ["src/avltree.c"], [("balance factors and rotations", "avltree.c rotate_left/rotate_right/lighten_*")], ["comparator call count through the public API"])
p("C03", "Hash table behaves as a map under every history, capacity and hash function",
  "After any sequence of puts, gets, detaches, removes and pops a hash table holds exactly the associations an ideal map keyed by the comparator would hold, whatever capacity was requested and however the hash function distributes the keys (including all keys colliding, and more elements than the capacity): size, emptiness and lookup agree with that map, a traversal visits every association exactly once, and popping any element removes and returns exactly one stored association. Storing under a present key replaces the association and hands back the old one, and storing the very same value again has no effect and returns nothing.",
  ["histories", "inputs", "configurations"], "Every operation history, every requested capacity, every hash function consistent with the comparator.",
  "There is no test of the hash table at all.",
  ["src/hashtable.c", "include/hashtable.h", "src/list.c"],
  [("bucket array of lists, prime sizes", "hashtable.c make_hash_table/hash_table_put"), ("element back references", "hashtable.c hash_table_detach/get_other")])
p("C04", "List behaves as a sequence under every operation history",
  "After any sequence of appends, prepends, insertions before an element, removals and pops, a list holds exactly the values an ideal sequence would hold, in the same order: size, emptiness, first, last, indexed access (nothing outside the range), search for the first occurrence of a value, forward and backward stepping and the for-each order all agree with that sequence. Element handles returned by insertions stay valid and keep denoting the same member until that member is removed. A copy holds the same values in the same order and evolves independently.",
  ["histories", "inputs"], "Every operation history, including duplicate and NULL values and operations at both ends and in the middle.",
  "The list tests build one list and read it back; insertion before an element, removal in the middle, previous-links and popping from the end are not sampled systematically.",
  ["src/list.c", "include/list.h"], [("doubly linked nodes with first/last/size", "list.c")])
p("C05", "Priority queue always yields a minimal element and conserves its elements",
  "After any sequence of enqueues, dequeues, pops and removals a priority queue contains exactly the multiset of enqueued and not yet removed elements (one element may be enqueued several times, equal priorities are allowed), and peek and dequeue return an element that compares least among all contained ones. Size and emptiness agree with that multiset, an unordered pop returns and removes one contained element, and on an empty queue peek, dequeue and pop return nothing.",
  ["histories", "inputs"], "Every operation history, any weak ordering of priorities, with or without a relocation callback, with or without a context argument.",
  "The tests enqueue one list of elements; heap order after removals in the middle and with ties depends on the exact heap shape.",
  ["src/priority_queue.c", "include/priority_queue.h"], [("binary heap sift up/down", "priority_queue.c raise/lower")])
p("C06", "Priority queue locators always name the right element",
  "At any point of any history, removing by the locator most recently reported for an element contained once (and not enqueued again since it was last absent) removes and returns exactly that element, and no other element leaves the queue or loses its place in the order. Each contained element's most recently reported locator therefore stays usable across every enqueue, dequeue, pop and removal of other elements.",
  ["histories"], "Every operation history; after every step, removal is attempted for every contained element.",
  "Whether a stale locator exists depends on which elements were moved by which sift; the test removes a few elements in one fixed order.",
  ["src/priority_queue.c"], [("relocation callback on every slot assignment", "priority_queue.c assign/priorq_remove")])
p("C07", "Byte array holds exactly the bytes written, NUL-terminated and size-limited",
  "After any sequence of copies, appends, stream reads, resizes and clears, a byte array's contents equal those of an ideal byte sequence to which the successful operations were applied, stored contiguously and always followed by a NUL byte. An operation that would make the contents plus the NUL exceed the maximum size, (errno tells ENOSPC), or that writes past the current end, fails and leaves contents and size unchanged; every operation that fits succeeds, a stream read is offered exactly the requested amount or, if less, the room left, and appends precisely what the callback reports, failing with the callback's errno when it fails. The array stays alive with one shared state until every holder has destroyed it.",
  ["histories", "inputs", "fault_sequences"], "Every operation history with every size around growth boundaries, every maximum size, every callback answer (error, end, short, full), any sharing pattern.",
  "The test covers one growing pattern; boundary sizes, overlapping writes, failing operations and stream errors are not combined.",
  ["src/bytearray.c", "include/bytearray.h"], [("space check and power-of-two growth", "bytearray.c ensure_space"), ("reference count", "bytearray.c share/destroy")])
p("C08", "Integer set answers membership and next-hit/miss exactly",
  "After any sequence of fills, additions and removals, an integer set of a given size contains exactly the in-range integers an ideal set would contain; adding, removing or querying an out-of-range integer has no effect and answers no. Searching for the next contained or next missing integer from any starting point returns the smallest one at or after it within the size, or -1 if there is none, and emptiness agrees (sets of up to INT_MAX integers for searching and emptiness, of any size for membership).",
  ["histories", "inputs", "configurations"], "Every operation history, every set size (word multiples and not), every starting point including out-of-range ones.",
  "The tests use a few sizes and elements; word-boundary arithmetic fails only at particular size/element combinations.",
  ["src/intset.c", "include/intset.h"], [("bit words", "intset.c")])
p("C09", "All memory goes through the allocator hook and is released exactly once",
  "When a custom allocator is installed, every block any part of the library allocates comes from it and none from elsewhere, every block is released or resized through it at most once and while live, and after all objects, elements and returned strings have been destroyed as documented nothing remains allocated. This holds for every history of container operations, and for text operations on both their success and their failure paths.",
  ["histories", "inputs"], "Every operation history over every module; ownership checked at every step and at teardown.",
  "Leaks and double releases on rarely taken paths (replacement, failed conversion, shared arrays) only appear in specific histories.",
  ["src/fsalloc.c", "src/avltree.c", "src/hashtable.c", "src/list.c", "src/bytearray.c", "src/charstr.c", "src/charstr_puny.c"],
  [("single reallocator indirection", "fsalloc.c"), ("destroy functions", "all modules")], ["custom reallocator call log"])
p("C10", "Allocation primitives keep their contracts, including on overflow",
  "Allocate, resize, free and zero-allocate translate into exactly one call of the installed allocator with the right block and size (freeing nothing calls nothing, resizing to zero frees), zero-allocated memory is entirely zero for the requested product, and a product that overflows never yields a smaller block than asked for. The allocator and counter hooks return what was last installed, the counter is called only by explicit skewing with exactly the given count, and with the default allocator contents survive resizing and memory that cannot be had ends the process instead of yielding a null pointer.",
  ["inputs", "histories"], "All sequences of primitive calls and hook changes up to a bound, all size/count combinations around machine-word boundaries.",
  "The allocation tests run one small sequence; overflow and hook interplay are untested.",
  ["src/fsalloc.c", "include/fsalloc.h"], [("reallocator and counter function pointers", "fsalloc.c")])
p("C11", "Base64 encoding and decoding are exact inverses and reject bad input",
  "Encoding any byte string gives its padded base64 text, with the two last alphabet characters replaceable by the caller, and decoding that text gives the bytes back; the advertised encoded size is exact (or an overflow is reported) and the allocating and bounded variants agree. Decoding succeeds on exactly the well-formed texts: any foreign character, missing, misplaced or excess padding, impossible length or nonzero leftover bits is refused, and white space is skipped when requested and refused otherwise. Whatever the destination size, the bounded variants report the full length, write the leading part that fits (encoding always NUL-terminated), and stop reading at the given size or the first NUL.",
  ["inputs", "configurations"], "All byte strings and texts, all choices of the two special characters, both white-space settings, all source and destination sizes.",
  "The tests convert a handful of strings with one or two alphabets; per-character table entries and tail states are not covered.",
  ["src/base64.c", "include/base64.h"], [("encoding/decoding tables", "base64.c"), ("tail validation", "base64.c")])
p("C12", "UTF-8 decoding, encoding, validation and sanitizing are exact",
  "Decoding a code point accepts exactly the well-formed UTF-8 sequences that lie within the given bounds (no overlong forms, surrogates, truncated, stray or out-of-range sequences) and yields the code point and the position after it; encoding any Unicode code point produces precisely its well-formed sequence or reports that it does not fit. Whole-string validation, bounded or NUL-terminated, says yes precisely when the entire text is well-formed. Sanitizing leaves valid text unchanged and otherwise replaces exactly the bytes that are not part of a well-formed sequence with the replacement character.",
  ["inputs"], "All byte strings (every lead/continuation combination in every position), all code points, all buffer ends.",
  "The tests feed a fixed set of strings; acceptance is a function of up to four bytes with many boundary cases.",
  ["src/charstr.c", "include/charstr.h"], [("code point decoder/encoder", "charstr.c")])
p("C13", "Unicode and IDNA tables agree with the Unicode data for every code point",
  "For every code point, assigned or not, the general category, canonical combining class, simple upper case mapping of lower-case letters (Ll) and lower case mapping of upper-case letters (Lu; all others map to themselves), normal-form quick-check flags, and IDNA status and mapping reported by the library are those of the bundled Unicode data files. Numbers outside the Unicode range, negative ones included, are treated as unassigned and map to themselves.",
  ["inputs"], "All 1,114,112 code points and values beyond the range.",
  "The table tests sample a few code points; an off-by-one in a generated range table affects only range ends.",
  ["src/categorize.py", "src/gen_idna_table.c", "src/allowed_in_normal_form.py", "src/canonical_combining_classes.py", "src/lower_case.py", "src/upper_case.py", "src/charstr_unicode.c", "src/charstr_puny.c", "src/charstr.c"],
  [("table generators", "src/*.py, src/gen_idna_table.c"), ("lookup functions", "charstr*.c")])
p("C14", "Normalization yields the canonical forms and detection never misjudges",
  "Canonically decomposing any valid UTF-8 string yields its NFD form, and recomposing a canonically decomposed string yields its NFC form; the result is NUL-terminated and its end is returned. Malformed input and lack of room are reported as the respective errors and never produce a wrong or truncated result, and a buffer of the documented size is always enough. A string reported as canonically composed (or decomposed) is always valid and already in NFC (or NFD), and a string reported as disallowed never is.",
  ["inputs"], "All UTF-8 strings, valid or not, NUL-terminated or bounded, all output sizes; in particular code point sequences that interact (Hangul, reordered marks, blocked composition, exclusions). Runs of more than 100 consecutive unabsorbed combining marks may be refused by recomposition.",
  "The tests run the conformance file of single strings with a large buffer; boundary-sized buffers and other mark sequences are not covered.",
  ["src/charstr_decompose.c", "src/charstr_recompose.c", "src/charstr_unicode.c", "src/decomposition.py", "src/recomposition.py"],
  [("decomposition tables, Hangul arithmetic, canonical ordering", "charstr_decompose.c"), ("starter/mark recomposition", "charstr_recompose.c")])
p("C15", "IDNA encoding gives the correct ASCII host name or a clean refusal",
  "For every valid Unicode host name the encoder returns exactly the ASCII name prescribed by UTS #46 mapping, canonical composition and per-label Punycode, with an optional final dot kept; all-ASCII input comes back lower-cased and otherwise unchanged. Names whose encoded labels exceed 63 or whose encoded form exceeds 253 characters (final dot not counted), and names containing disallowed characters, malformed UTF-8, or (in a name with non-ASCII characters) a label that is empty, begins or ends with a hyphen or begins with a combining mark, are refused. No input makes it crash or return non-ASCII text or an overlong label.",
  ["inputs"], "All strings: all code points in a label, all label and name lengths up to and past the limits, all combinations of ASCII and non-ASCII labels, malformed UTF-8.",
  "The IDNA test file samples names; label-length limits and Punycode bias/delta arithmetic only show at particular lengths and insertions.",
  ["src/charstr_puny.c"], [("mapping and NFC", "charstr_puny.c charstr_idna_encode"), ("Punycode", "charstr_puny.c punycode_encode")])
p("C16", "URL encoding escapes exactly the documented bytes and round-trips",
  "URL-encoding a string leaves letters, digits and the documented safe punctuation as they are, turns a space into a plus sign and every other byte into a percent sign with two upper-case hex digits; a custom encoder additionally escapes exactly the bytes it was told to reserve and spares exactly those it was told to unreserve, without affecting any other encoder. Decoding gives back the original bytes and their exact count (embedded NUL bytes included), accepts hex digits of either case, treats plus as configured and refuses every malformed escape.",
  ["inputs", "configurations"], "All byte strings, all custom encoders, both plus settings, all escape spellings.",
  "The tests convert sample strings; each byte value's class and each malformed tail is a separate case.",
  ["src/charstr.c", "include/charstr.h"], [("URL character tables and encoder object", "charstr.c")])
p("C17", "Conversions never touch memory outside their buffers or modify their input",
  "For every input and every destination size, the text conversions (UTF-8, normalization, base64, case, comparison, splitting, URL and host name conversion) read nothing before the input or past its given end or terminator, write nothing outside the destination, and leave the input unmodified unless documented as in-place. In-place case conversion of a sub-string changes nothing outside it, and bytes beyond the given end or terminator never influence a result.",
  ["inputs", "configurations"], "All inputs up to a bound placed at the edge of inaccessible memory, with every end position and every destination size from zero to sufficient.",
  "Tests use generous buffers; an off-by-one write or over-read only faults when the buffer ends exactly at the limit.",
  ["src/charstr.c", "src/charstr_decompose.c", "src/charstr_recompose.c", "src/base64.c"],
  [("end pointers passed to all converters", "charstr*.c, base64.c")])
p("C18", "ASCII classification, case mapping and prefix/suffix comparison are exact",
  "Every byte value has exactly the documented character classes, ASCII case mapping and hexadecimal digit value, independent of locale, and case-insensitive comparison (bounded or not) returns the sign of the byte-wise comparison of the ASCII-lowercased strings. Skipping a prefix (case-sensitively or not) returns the position after it exactly when the string starts with it, and the suffix query is true exactly when the string ends with the suffix. In-place case conversion maps every character of the given string or sub-string.",
  ["inputs"], "All byte values, all pairs of strings over an alphabet including the bytes next to the letter ranges and above 127, all bounds.",
  "The tests sample some characters; a wrong table entry or a boundary such as '@' or '[' needs that byte.",
  ["src/charstr.c", "include/charstr.h"], [("character class table", "charstr.c")])
p("C19", "Splitting, stripping, duplicating and formatting strings lose nothing",
  "Splitting at a delimiter character or string with any split limit yields exactly the fields between the leftmost delimiters, empty ones included, with the unsplit remainder last; splitting into an array agrees with splitting into a list, and splitting into atoms yields precisely the maximal runs of non-white-space. Stripping removes exactly the leading and trailing white space. Duplicates of strings and sub-strings and formatted strings of any length equal what was asked for, every returned string is freshly allocated and NUL-terminated, and an unformattable request is refused.",
  ["inputs", "configurations"], "All strings over small alphabets with delimiters and every white-space character in every position, all limits, all output lengths.",
  "Tests split a few literals; empty fields, limits and delimiters at the ends combine in many ways.",
  ["src/charstr.c", "include/charstr.h"], [("split and dup functions", "charstr.c")])
p("C20", "Calendar conversion is exact for every time stamp, past and future",
  "Converting seconds since the epoch to a broken-down UTC date gives the proleptic Gregorian year, month, day of month, weekday, hour, minute and second, with no daylight saving, for every time stamp whose year is representable, before and after 1970 and under all leap-year rules.",
  ["inputs"], "All time stamps: every day over several 400-year cycles either side of the epoch, every second of sample days, day boundaries and extreme values.",
  "The test checks some positive time stamps; leap centuries, negative times and distant years are separate cases.",
  ["src/date.c", "include/date.h"], [("cycle arithmetic and tables", "date.c")])
p("C21", "Conversion of floating-point bit patterns to integers is exact",
  "Converting any IEEE 754 binary64 bit pattern to a signed or unsigned integer succeeds exactly when the number is an integer representable in the target type (either zero included; infinities, NaNs, fractions and subnormals fail), and then yields that integer. A failed conversion reports failure for every other bit pattern.",
  ["inputs"], "All sign and exponent combinations with all boundary and few-bit mantissas.",
  "The test samples a few doubles; errors appear at particular exponents or at the type limits.",
  ["src/float.c", "include/float.h"], [("bit-field extraction", "float.c")])
p("C22", "Integer boxing, comparators and hash functions are consistent",
  "Boxing any signed or unsigned machine integer and unboxing it returns the same value, and the integer comparators order any two boxed values as the integers themselves, extremes included. Hashing an integer, string or blob is a pure function of its value: it does not depend on address, alignment or surrounding bytes, and no two distinct integers, or strings or blobs of up to three bytes, share a hash.",
  ["inputs"], "All pairs of boundary integers; all byte strings up to a bound, at every alignment and in different surroundings.",
  "Comparators based on subtraction fail only for far-apart operands, which no test uses.",
  ["src/integer.c", "include/integer.h", "src/hashtable.c"], [("three-way compare", "integer.c"), ("hash functions", "hashtable.c")])
p("C23", "Operations on different objects never interfere, however interleaved",
  "An operation interrupted at any point by any other library call on unrelated objects or buffers, from a signal, another thread or a callback, completes with the same result as uninterrupted, and so does the interrupting call (errno, which every thread has to itself and a signal handler preserves, apart). The library keeps no hidden mutable state shared between calls other than the installed allocator and counter hooks.",
  ["schedules"], "Every instruction at which one operation can be preempted by a complete other operation, for every pair of representative operations.",
  "Tests are single-threaded and never nest calls; hidden static scratch space is invisible to them.",
  ["src/avltree.c", "src/base64.c", "src/bytearray.c", "src/charstr.c", "src/charstr_decompose.c", "src/charstr_puny.c", "src/charstr_recompose.c", "src/charstr_unicode.c", "src/date.c", "src/float.c", "src/hashtable.c", "src/integer.c", "src/intset.c", "src/list.c", "src/priority_queue.c"],
  [("all state in caller-owned objects or on the stack", "whole library")])
p("C24", "C++ owning pointers release their object exactly once",
  "In C++, an owning pointer made for a byte array, a URL encoder or an allocated block owns exactly the object it was given: through any sequence of moves, swaps, resets, releases and re-adoptions the object stays intact while one owner (or one other holder of a shared byte array) is left, and is destroyed by the library's own destructor function, with all its memory, precisely when the last one goes away. An owner of nothing does nothing, and a released object is left to the caller.",
  ["histories"], "All sequences of owner operations over a few owners, raw holders and objects of each kind.",
  "No test uses the C++ part of the headers; a wrong or missing destructor function shows only in the accounts of the allocator.",
  ["include/bytearray.h", "include/charstr.h", "include/fsalloc.h"], [("std::unique_ptr with a destructor function", "the C++ section of the headers")])
p("C25", "Operations stay as cheap as their data structures promise",
  "At every size and for every order of operations, the work of one operation grows no faster than its data structure implies, up to a constant factor: priority queue enqueueing, dequeueing and removal by locator and all AVL tree lookups, insertions, removals and neighbour steps are logarithmic in the number of elements (peeking and sizes constant, a full traversal constant per step on average); list size, append, prepend, insertion, stepping, removal and popping at either end are constant; a hash table's lookup, insertion and removal by key are constant on average when the hash values are well distributed and the elements do not exceed the requested capacity; integer set addition, removal and membership are constant; building a byte array or a priority queue piece by piece copies an amortised constant per piece. Searches, traversals, copies, destruction, and every text or Base64 conversion are at most proportional to the size of what they process (the reordering of long runs of combining marks apart), and no operation needs stack space in proportion to it.",
  ["histories", "inputs"], "All sizes up to thousands of elements, all insertion orders and all kinds of text; the shortcut that makes an operation linear gives the right results at every size.",
  "Tests look at results only; an operation that has become linear, or a conversion that has become quadratic, passes all of them and shows only in large objects.",
  ["include/list.h", "include/priority_queue.h", "include/avltree.h", "include/hashtable.h", "include/intset.h", "src/list.c", "src/priority_queue.c", "src/avltree.c", "src/hashtable.c", "src/bytearray.c", "src/intset.c", "src/charstr.c", "src/base64.c"], [("The list keeps its size and both ends", "src/list.c"), ("heap sift up and down, array grown geometrically", "src/priority_queue.c"), ("balanced tree", "src/avltree.c"), ("bucket count derived from the capacity", "src/hashtable.c")])
p("C26", "Tables rebuilt from other Unicode and IDNA data files agree with them",
  "For every well-formed set of data files in the formats of the bundled ones (another version of Unicode, a private character set), the build succeeds and the resulting library reports, for every code point, exactly what those files say: its category, its combining class, the lower case of an upper-case letter and the upper case of a lower-case one, its normal-form quick-check flags, and its IDNA status and mapping; and it decomposes and recomposes texts precisely as the decompositions, composition exclusions and combining classes in the files imply. This holds wherever characters lie in the code space, from U+0000 to U+10FFFF, however they are grouped into ranges, and however few or many entries a table has.",
  ["inputs"], "All small arrangements of characters of every kind, decompositions, exclusions, quick-check values, statuses and mappings, at the ends of the code space and elsewhere, and tables of all small sizes and at the boundaries of their search structure.",
  "The tests and every user see only the tables made from one set of data files; a generator that mistreats what those files happen not to contain (the first or last code point, an empty or full range, a table of another size) shows only when the data are updated.",
  ["src/categorize.py", "src/lower_case.py", "src/upper_case.py", "src/canonical_combining_classes.py", "src/allowed_in_normal_form.py", "src/decomposition.py", "src/recomposition.py", "src/gen_idna_table.c", "src/SConscript", "src/charstr_unicode.c", "src/charstr_decompose.c", "src/charstr_recompose.c"], [("table generators", "src/*.py, src/gen_idna_table.c"), ("lookups in the generated tables", "src/charstr_*.c")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
