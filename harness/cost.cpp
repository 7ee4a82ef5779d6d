// C25: operations stay as cheap as their data structures promise.
//
// The library is built with thread instrumentation and linked with counting
// hooks: the cost of a call is the number of (8-byte) memory accesses it makes,
// including those of the memory and string functions it calls, plus its calls
// of the user's callbacks.  Resizing in the allocator is not counted as access
// but accounted for separately.  Costs are compared with those of the same
// operation on small objects, so only the growth is judged, not the constant.
#include "text.hpp"
#include "avltree.h"
#include "list.h"
#include "hashtable.h"
#include "priority_queue.h"
#include "bytearray.h"
#include "intset.h"
#include "base64.h"
#include "charstr.h"
#include "integer.h"
#include "fsalloc.h"
#include <cmath>
#include <map>
#include <mutex>
using namespace mc;

static bool counting;
static uint64_t cost, limit = UINT64_MAX;
static const char *what_runs = "";
static size_t size_runs;
[[noreturn]] static void too_costly() { counting = false; fail("%s at size %zu makes more than %llu memory accesses", what_runs, size_runs, (unsigned long long)limit); abort(); }
static inline void point(const void *, size_t n, bool)
{
    if (!counting) return;
    cost += n / 8 + 1;
    if (cost > limit) too_costly();
}
#include "tsan_hooks.hpp"
struct Off { bool old; Off() : old(counting) { if (counting) cost++; counting = false; } ~Off() { counting = old; } };

// bytes the allocator had to copy on behalf of the library, and number of calls
static uint64_t copied;
static void *counted_realloc(void *p, size_t n)
{
    Off o;
    if (p && n) copied += std::min(n, arena_block_size(p));
    return arena_realloc(p, n);
}

enum Order { ASC, DESC, PIPE, MIX, SAME, NORDERS };
static const char *order_name[] = {"ascending", "descending", "alternating", "mixed", "constant"};
static long at(Order o, size_t i, size_t n)
{
    switch (o) {
        case ASC: return i;
        case DESC: return n - i;
        case PIPE: return i % 2 ? (long)i : -(long)i;
        case MIX: return (long)((i * 2654435761u) % 1000003);
        default: return 7;
    }
}
// Bytes of stack used by f: the stack below is painted and looked at afterwards.
static const size_t WINDOW = 768 << 10;
template <class F> __attribute__((noinline)) static size_t stack_used(F f)
{
    volatile uint64_t here;
    volatile uint64_t *top = (volatile uint64_t *)((uintptr_t)&here - 2048 & ~(uintptr_t)7), *low = top - WINDOW / 8;
    for (volatile uint64_t *p = top; p > low;) *--p = 0x5aa55aa5c33cc33cull;
    f();
    volatile uint64_t *p = low;
    while (p < top && *p == 0x5aa55aa5c33cc33cull) p++;
    return (top - p) * 8 + 2048;
}
// Cost of the operations run by f.
template <class F> static uint64_t measure(F f) { cost = 0; counting = true; f(); counting = false; step(); return cost; }

// A script fills in, per operation, the total cost and the number of calls, and
// the largest cost of a single call.
struct Tally { uint64_t total = 0, calls = 0, max = 0; void add(uint64_t c) { total += c; calls++; if (c > max) max = c; } };
enum Class { CONST, LOG, LIN };          // per call, in the size
struct Op { const char *name; Class cls; bool single; };   // single: every single call is bounded, not only the average
typedef std::map<int, Tally> Costs;

struct Script {
    const char *name;
    std::vector<Op> ops;
    std::function<void(size_t n, Order o, Costs &)> run;
};
static double klass(Class c, size_t n) { return c == CONST ? 1 : c == LOG ? std::log2((double)n + 1) + 1 : (double)n + 1; }

// ---------------------------------------------------------------- containers
struct PE { long prio; void *loc; };
static int pcmp(const void *a, const void *b) { Off o; long x = ((const PE *)a)->prio, y = ((const PE *)b)->prio; return x < y ? -1 : x > y; }
static void preloc(const void *e, void *loc) { Off o; ((PE *)e)->loc = loc; }
static int icmp(const void *a, const void *b) { Off o; intptr_t x = (intptr_t)a, y = (intptr_t)b; return x < y ? -1 : x > y; }
static uint64_t ihash(const void *k) { Off o; return (uintptr_t)k; }
static ssize_t chunk(void *obj, void *buf, size_t n) { Off o; n = std::min(n, *(size_t *)obj); memset(buf, 'x', n); return n; }

static std::vector<Script> scripts()
{
    std::vector<Script> v;
    enum { A, B, C, D, E, F, G, H, I, J, K, L, M };
#define T(i, stmt) c[i].add(measure([&] { stmt; }))
    v.push_back({"list", {{"list_append", CONST, false}, {"list_prepend", CONST, false}, {"list_insert_before", CONST, false}, {"list_size", CONST, true}, {"list_empty, list_get_first or list_get_last", CONST, true},
                          {"list_next or list_previous", CONST, true}, {"list_remove", CONST, false}, {"list_pop_first or list_pop_last", CONST, false}, {"list_get", LIN, true}, {"list_get_by_index", LIN, true}, {"list_foreach or list_copy", LIN, true}, {"destroy_list", LIN, true}},
        nullptr});
    v.back().run = [](size_t n, Order o, Costs &c) {
        list_t *l = make_list();
        std::vector<list_elem_t *> h;
        for (size_t i = 0; i < n; i++) {
            list_elem_t *e = nullptr;
            if (o == ASC || h.empty()) T(A, e = list_append(l, (void *)(i + 1)));
            else if (o == DESC) T(B, e = list_prepend(l, (void *)(i + 1)));
            else if (o == PIPE && i % 2) T(B, e = list_prepend(l, (void *)(i + 1)));
            else if (o == PIPE) T(A, e = list_append(l, (void *)(i + 1)));
            else T(C, e = list_insert_before(l, (void *)(i + 1), h[at(o, i, n) % h.size()]));
            h.push_back(e);
            T(D, list_size(l));
            T(E, list_empty(l)); T(E, list_get_first(l)); T(E, list_get_last(l));
        }
        T(I, list_get(l, (void *)-1)); T(I, list_get(l, list_elem_get_value(list_get_last(l))));
        T(J, list_get_by_index(l, n - 1)); T(J, list_get_by_index(l, n / 2)); T(J, list_get_by_index(l, n + 5));
        for (auto e = list_get_first(l); e;) T(F, e = list_next(e));
        for (auto e = list_get_last(l); e;) T(F, e = list_previous(e));
        T(K, list_foreach(l, [](const void *, void *) {}, nullptr));
        list_t *k; T(K, k = list_copy(l));
        T(L, destroy_list(k));
        for (size_t i = 1; i < n; i += 2) T(G, list_remove(l, h[i]));
        while (!list_empty(l)) { T(H, list_pop_first(l)); T(H, list_pop_last(l)); }
        destroy_list(l);
    };
    v.push_back({"priority queue", {{"priorq_enqueue", LOG, false}, {"priorq_dequeue", LOG, false}, {"priorq_remove", LOG, false}, {"priorq_peek, priorq_size or priorq_empty", CONST, true}, {"priorq_pop", CONST, false}},
        [](size_t n, Order o, Costs &c) {
            std::vector<PE> e(n);
            priorq_t *q = make_priority_queue(pcmp, preloc);
            auto fill = [&] { for (size_t i = 0; i < n; i++) { e[i].prio = at(o, i, n); T(A, priorq_enqueue(q, &e[i])); T(D, priorq_peek(q)); T(D, priorq_size(q)); T(D, priorq_empty(q)); } };
            fill();
            for (size_t i = 0; i < n; i += 2) T(C, priorq_remove(q, e[i].loc));
            while (!priorq_empty(q)) T(B, priorq_dequeue(q));
            fill();
            while (!priorq_empty(q)) T(B, priorq_dequeue(q));
            fill();
            while (!priorq_empty(q)) T(E, priorq_pop(q));
            destroy_priority_queue(q);
        }});
    v.push_back({"AVL tree", {{"avl_tree_put", LOG, false}, {"avl_tree_get or a neighbour lookup", LOG, true}, {"avl_tree_next or avl_tree_previous", LOG, true}, {"avl_tree_remove or avl_tree_pop", LOG, false}, {"avl_tree_size or avl_tree_empty", CONST, true},
                              {"avl_tree_get_first, avl_tree_get_last", LOG, true}, {"avl_tree_pop_first, avl_tree_pop_last", LOG, false}, {"avl_tree_copy or destroy_avl_tree", LIN, true}, {"a step of a full traversal, on average,", CONST, false}},
        [](size_t n, Order o, Costs &c) {
            if (o == SAME) return;
            avl_tree_t *t = make_avl_tree(icmp);
            std::vector<void *> ks;
            for (size_t i = 0; i < n; i++) {
                void *k = (void *)at(o, i, n);
                avl_elem_t *e; T(A, e = avl_tree_put(t, k, "v"));
                if (e) destroy_avl_element(e); else ks.push_back(k);
                T(E, avl_tree_size(t)); T(E, avl_tree_empty(t)); T(F, avl_tree_get_first(t)); T(F, avl_tree_get_last(t));
            }
            for (void *k : ks) { T(B, avl_tree_get(t, k)); T(B, avl_tree_get_before(t, k)); T(B, avl_tree_get_on_or_before(t, k)); T(B, avl_tree_get_after(t, k)); T(B, avl_tree_get_on_or_after(t, k)); T(A, avl_tree_put(t, k, "v")); }
            for (auto e = avl_tree_get_first(t); e;) { uint64_t x = measure([&] { e = avl_tree_next(e); }); c[C].add(x); c[I].add(x); }
            for (auto e = avl_tree_get_last(t); e;) { uint64_t x = measure([&] { e = avl_tree_previous(e); }); c[C].add(x); c[I].add(x); }
            avl_tree_t *k; T(H, k = avl_tree_copy(t));
            while (!avl_tree_empty(k)) { avl_elem_t *e; T(G, e = avl_tree_pop_first(k)); destroy_avl_element(e); if (!avl_tree_empty(k)) { T(G, e = avl_tree_pop_last(k)); destroy_avl_element(e); } }
            destroy_avl_tree(k);
            for (size_t i = 0; i < ks.size() / 2; i++) if (i % 2) T(D, avl_tree_remove(t, avl_tree_get(t, ks[i]))); else { avl_elem_t *e; T(D, e = avl_tree_pop(t, ks[i])); destroy_avl_element(e); }
            T(H, destroy_avl_tree(t));
        }});
    v.push_back({"hash table", {{"hash_table_put", CONST, false}, {"hash_table_get", CONST, true}, {"hash_table_pop or hash_table_remove", CONST, false}, {"hash_table_size or hash_table_empty", CONST, true}, {"a full traversal", LIN, true}, {"destroy_hash_table or make_hash_table", LIN, true}},
        [](size_t n, Order o, Costs &c) {
            if (o == SAME || o == MIX || o == PIPE) return;              // well distributed hashes: distinct modulo any size up to the capacity's
            hash_table_t *t; T(F, t = make_hash_table(n, ihash, icmp));
            for (size_t i = 0; i < n; i++) { T(A, hash_table_put(t, (void *)at(o, i, n), "v")); T(D, hash_table_size(t)); T(D, hash_table_empty(t)); }
            for (size_t i = 0; i < n; i++) { T(B, hash_table_get(t, (void *)at(o, i, n))); T(A, hash_table_put(t, (void *)at(o, i, n), "v")); }
            T(B, hash_table_get(t, (void *)(n + 1)));
            T(E, for (auto e = hash_table_get_any(t); e; e = hash_table_get_other(e)));
            for (size_t i = 0; i < n / 2; i++) if (i % 2) T(C, hash_table_remove(t, hash_table_get(t, (void *)at(o, i, n)))); else { hash_elem_t *e; T(C, e = hash_table_pop(t, (void *)at(o, i, n))); destroy_hash_element(e); }
            for (size_t i = 0; i < n; i++) T(B, hash_table_get(t, (void *)at(o, i, n)));
            T(E, for (auto e = hash_table_get_any(t); e; e = hash_table_get_other(e)));
            T(F, destroy_hash_table(t));
        }});
    v.push_back({"byte array", {{"byte_array_append", CONST, false}, {"byte_array_append_stream", CONST, false}, {"byte_array_data, byte_array_size or byte_array_clear", CONST, true}, {"byte_array_copy of one byte", CONST, false}},
        [](size_t n, Order o, Costs &c) {
            if (o > DESC) return;
            byte_array_t *a = make_byte_array(4 * n + 1000);
            size_t one = 1;
            for (size_t i = 0; i < n; i++) {
                if (o == ASC) T(A, byte_array_append(a, "x", 1)); else T(B, byte_array_append_stream(a, chunk, &one, 1));
                T(C, byte_array_size(a)); T(C, byte_array_data(a));
                T(D, byte_array_copy(a, i / 2, "y", 1));
            }
            T(C, byte_array_clear(a));
            destroy_byte_array(a);
        }});
    v.push_back({"integer set", {{"intset_add or intset_remove", CONST, true}, {"intset_has", CONST, true}, {"a search through the whole set, intset_empty or intset_fill", LIN, true}, {"a full walk by searches", LIN, true}},
        [](size_t n, Order o, Costs &c) {
            if (o > DESC) return;
            intset_t *s = make_intset(n);
            T(C, intset_find_next_hit(s, 0)); T(C, intset_empty(s));
            for (size_t i = 0; i < n; i++) { unsigned k = o == ASC ? i : n - 1 - i; T(A, intset_add(s, k)); T(B, intset_has(s, k)); if (k % 3) T(A, intset_remove(s, k)); }
            T(D, for (int i = intset_find_next_hit(s, 0); i >= 0; i = intset_find_next_hit(s, i + 1)));
            T(C, intset_fill(s)); T(C, intset_find_next_miss(s, 0));
            T(D, for (int i = intset_find_next_hit(s, 0); i >= 0; i = intset_find_next_hit(s, i + 1)));
            destroy_intset(s);
        }});
    return v;
}
// Per operation, the average and the largest cost at small sizes, per unit of its class.
struct Base { double avg = 0, max = 0; };
static const std::vector<size_t> SMALL = {8, 12, 16, 24, 32, 48, 60};
static std::map<int, Base> calibrate(const Script &s)
{
    std::map<int, Base> b;
    for (size_t n : SMALL) for (int o = 0; o < NORDERS; o++) {
        Costs c;
        arena_reset();
        limit = UINT64_MAX;
        s.run(n, (Order)o, c);
        for (auto &[i, t] : c) {
            double u = klass(s.ops[i].cls, n);
            b[i].avg = std::max(b[i].avg, (double)t.total / t.calls / u);
            b[i].max = std::max(b[i].max, (double)t.max / u);
        }
    }
    return b;
}
static std::vector<size_t> sizes(int top)
{
    std::vector<size_t> v;
    for (size_t n = 1; n <= 130; n++) v.push_back(n);
    for (int k = 8; k <= top; k++) for (int d = -1; d <= 1; d++) v.push_back(((size_t)1 << k) + d);
    for (int k = 8; k < top; k++) v.push_back(((size_t)3 << k) / 2);
    return v;
}
static void container_case(int which, size_t n, int o)
{
    static std::vector<Script> all = scripts();
    static std::map<int, std::map<int, Base>> bases;
    const Script &s = all[which];
    fs_set_reallocator(counted_realloc);
    arena_limit = (size_t)1 << 30;
    if (!bases.count(which)) bases[which] = calibrate(s);
    arena_reset();
    Costs c;
    size_runs = n; what_runs = s.name;
    // nothing a script does in one call may cost more than a multiple of the whole object
    double top = 0;
    for (auto &[i, b] : bases[which]) top = std::max(top, b.max);
    limit = (uint64_t)(64 * top * (n + 64)) + 100000;
    copied = 0;
    size_t stack = 0, allowed = 65536;
    if (n >= 1000) stack = stack_used([&] { s.run(n, (Order)o, c); });
    else s.run(n, (Order)o, c);
    MC_CHECK(stack <= allowed, "%s: an operation on an object of size %zu uses %zu bytes of stack", s.name, n, stack);
    MC_CHECK(copied <= 32 * (which == 4 ? 1 : 8) * n + 65536, "%s: building and changing an object of size %zu made the allocator copy %llu bytes", s.name, n, (unsigned long long)copied);
    uint64_t h = 0;
    for (auto &[i, t] : c) {
        const Op &op = s.ops[i];
        double u = klass(op.cls, n), avg = (double)t.total / t.calls;
        const Base &b = bases[which][i];
        MC_CHECK(avg <= 4 * b.avg * u + 64, "%s: %s costs %.0f accesses on average at size %zu (order %s), expected about %.0f", s.name, op.name, avg, n, order_name[o], b.avg * u);
        if (op.single) MC_CHECK(t.max <= 4 * b.max * u + 64, "%s: a single %s costs %llu accesses at size %zu (order %s), expected about %.0f", s.name, op.name, (unsigned long long)t.max, n, order_name[o], b.max * u);
        h = h * 31 + i;
    }
    outcome(which * 1000 + h % 1000);
    fs_set_reallocator(arena_realloc);
}

// ------------------------------------------------------------- conversions
struct Text { const char *name; std::function<void(const std::string &)> f; };
static std::string unit(int kind, size_t i)
{
    switch (kind) {
        case 0: return "a";
        case 1: return ",";
        case 2: return i % 2 ? "," : "a";
        case 3: return " ";
        case 4: return i % 2 ? " " : "Z";
        case 5: return "%41";
        case 6: return "\xc3\xa4";
        case 7: return "\xe4\xb8\xad";
        case 8: return "\xf0\x9d\x84\x9e";
        case 9: return "\xff";
        case 10: return i % 2 ? "\xcc\x81" : "e";
        case 11: return "\xea\xb0\x81";
        case 12: return "\xe1\x84\x80\xe1\x85\xa1\xe1\x86\xa8";
        case 13: return "QUJD";
        case 14: return i % 16 ? "a" : "\n";
        case 15: return i % 7 ? "A" : "\xc3";
        default: return i % 3 ? "ab" : "aab";
    }
}
static const int KINDS = 17;
static std::vector<Text> texts()
{
    auto drop = [](char *p) { if (p) fsfree(p); };
    auto drops = [](list_t *l) { Off o; while (!list_empty(l)) fsfree((void *)list_pop_first(l)); destroy_list(l); };
    static std::vector<char> out(1 << 23);
    std::vector<Text> v;
    v.push_back({"charstr_dupstr", [=](const std::string &s) { drop(charstr_dupstr(s.c_str())); drop(charstr_dupsubstr(s.c_str(), s.c_str() + s.size())); }});
    v.push_back({"charstr_lcase_str or charstr_ucase_str", [=](const std::string &s) { memcpy(out.data(), s.c_str(), s.size() + 1); charstr_lcase_str(out.data()); charstr_ucase_str(out.data()); charstr_lcase_substr(out.data(), out.data() + s.size()); charstr_ucase_substr(out.data(), out.data() + s.size()); }});
    v.push_back({"charstr_case_cmp", [=](const std::string &s) { memcpy(out.data(), s.c_str(), s.size() + 1); charstr_case_cmp(s.c_str(), out.data()); charstr_ncase_cmp(s.c_str(), out.data(), s.size()); }});
    v.push_back({"a prefix or suffix query", [=](const std::string &s) { memcpy(out.data(), s.c_str(), s.size() + 1); charstr_skip_prefix(s.c_str(), out.data()); charstr_case_skip_prefix(s.c_str(), out.data()); charstr_ends_with(s.c_str(), out.data()); }});
    v.push_back({"charstr_split", [=](const std::string &s) { drops(charstr_split(s.c_str(), ',', -1)); }});
    v.push_back({"charstr_split_into_array", [=](const std::string &s) { static char *a[600001]; unsigned n = charstr_split_into_array(s.c_str(), ',', a, 600000); Off o; for (unsigned i = 0; i <= n; i++) fsfree(a[i]); }});
    v.push_back({"charstr_split_str", [=](const std::string &s) { drops(charstr_split_str(s.c_str(), "aab", -1)); }});
    v.push_back({"charstr_split_atoms", [=](const std::string &s) { drops(charstr_split_atoms(s.c_str())); }});
    v.push_back({"charstr_strip", [=](const std::string &s) { drop(charstr_strip(s.c_str())); }});
    v.push_back({"charstr_valid_utf8", [=](const std::string &s) { charstr_valid_utf8(s.c_str()); charstr_valid_utf8_bounded(s.c_str(), s.c_str() + s.size()); }});
    v.push_back({"charstr_sanitize_utf8", [=](const std::string &s) { drop(charstr_sanitize_utf8(s.c_str())); }});
    v.push_back({"charstr_url_encode", [=](const std::string &s) { drop(charstr_url_encode(s.c_str())); }});
    v.push_back({"charstr_url_decode", [=](const std::string &s) { size_t n; drop(charstr_url_decode(s.c_str(), true, &n)); }});
    v.push_back({"normal form detection", [=](const std::string &s) { charstr_unicode_canonically_composed(s.c_str(), s.c_str() + s.size()); charstr_unicode_canonically_decomposed(s.c_str(), nullptr); }});
    v.push_back({"charstr_unicode_decompose", [=](const std::string &s) { charstr_unicode_decompose(s.c_str(), s.c_str() + s.size(), out.data(), out.data() + out.size()); }});
    v.push_back({"charstr_unicode_recompose", [=](const std::string &s) { charstr_unicode_recompose(s.c_str(), s.c_str() + s.size(), out.data(), out.data() + out.size()); }});
    v.push_back({"base64 encoding", [=](const std::string &s) { drop(base64_encode_simple(s.data(), s.size())); base64_encode_buffer(s.data(), s.size(), out.data(), s.size(), -1, -1); }});
    v.push_back({"base64 decoding", [=](const std::string &s) { size_t n; drop((char *)base64_decode_simple(s.c_str(), &n)); base64_decode_buffer(s.c_str(), s.size(), out.data(), out.size(), -1, -1, false); }});
    v.push_back({"hash_string or hash_blob", [=](const std::string &s) { hash_string(s.c_str()); hash_blob(s.data(), s.size()); }});
    v.push_back({"charstr_printf", [=](const std::string &s) { drop(charstr_printf("%s", s.c_str())); }});
    return v;
}
static std::string text_of(int kind, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += unit(kind, i); return s; }
static void text_case(int which, size_t n, int kind)
{
    static std::vector<Text> all = texts();
    static std::map<int, double> bases;
    static std::map<int, size_t> stacks;
    const Text &t = all[which];
    fs_set_reallocator(counted_realloc);
    arena_limit = (size_t)1 << 30;
    what_runs = t.name;
    if (!bases.count(which)) {
        double b = 0;
        size_t st = 0;
        for (size_t m : SMALL) for (int k = 0; k < KINDS; k++) {
            std::string s = text_of(k, m);
            arena_reset(); limit = UINT64_MAX;
            b = std::max(b, (double)measure([&] { t.f(s); }) / (s.size() + 1));
            arena_reset();
            st = std::max(st, stack_used([&] { t.f(s); }));
        }
        bases[which] = b; stacks[which] = st;
    }
    std::string s = text_of(kind, n);
    arena_reset();
    size_runs = s.size();
    limit = (uint64_t)(4 * bases[which] * (s.size() + 1)) + 1000;
    copied = 0;
    uint64_t c = measure([&] { t.f(s); });
    MC_CHECK(copied <= 64 * (s.size() + 64), "%s of %zu bytes made the allocator copy %llu bytes", t.name, s.size(), (unsigned long long)copied);
    if (s.size() >= 1000) {
        arena_reset();
        size_t st = stack_used([&] { t.f(s); });
        MC_CHECK(st <= 2 * stacks[which] + 16384, "%s of %zu bytes uses %zu bytes of stack, %zu for short texts", t.name, s.size(), st, stacks[which]);
    }
    outcome(which * 4 + (c > 0));
    fs_set_reallocator(arena_realloc);
}

void mc::suites(std::vector<Suite> &out)
{
    static const int NS = scripts().size(), NT = texts().size();
    Suite s;
    s.name = "containers";
    int top = thorough ? 17 : 13, ttop = thorough ? 19 : 15;
    s.bound = "every operation of 6 containers at every size up to 130 and around powers of two up to 2^" + std::to_string(top) + ", in 5 orders";
    s.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (size_t n : sizes(top)) for (int w = 0; w < NS; w++) for (int o = 0; o < NORDERS; o++)
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, (uint32_t)w); putv(v, (uint64_t)n); putv(v, (uint32_t)o); e.run(v.data(), v.size()); }
    };
    s.exec = [](const uint8_t *p, size_t) { int w = getv<uint32_t>(p); size_t n = getv<uint64_t>(p); container_case(w, n, getv<uint32_t>(p)); };
    s.describe = [](const uint8_t *p, size_t) { int w = getv<uint32_t>(p); size_t n = getv<uint64_t>(p); return std::string(scripts()[w].name) + " of size " + std::to_string(n) + ", " + order_name[getv<uint32_t>(p)]; };
    out.push_back(s);
    s.name = "growth";
    s.bound = "byte arrays of up to 2^17 bytes built byte by byte, priority queues of up to 2^16 elements: bytes copied by the allocator";
    s.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (int w : {1, 4}) for (int k = 13; k <= (w == 4 ? 17 : 16); k++) for (int o : {0, 1})
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, (uint32_t)w); putv(v, (uint64_t)1 << k); putv(v, (uint32_t)o); e.run(v.data(), v.size()); }
    };
    out.push_back(s);
    s.name = "conversions";
    s.bound = "20 conversions of texts of 17 kinds with every number of characters up to 130 and around powers of two up to 2^" + std::to_string(ttop);
    s.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (size_t n : sizes(ttop)) for (int w = 0; w < NT; w++) for (int o = 0; o < KINDS; o++)
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, (uint32_t)w); putv(v, (uint64_t)n); putv(v, (uint32_t)o); e.run(v.data(), v.size()); }
    };
    s.exec = [](const uint8_t *p, size_t) { int w = getv<uint32_t>(p); size_t n = getv<uint64_t>(p); text_case(w, n, getv<uint32_t>(p)); };
    s.describe = [](const uint8_t *p, size_t) { int w = getv<uint32_t>(p); size_t n = getv<uint64_t>(p); return std::string(texts()[w].name) + " of " + std::to_string(n) + " characters, kind " + std::to_string(getv<uint32_t>(p)); };
    out.push_back(s);
}
