// C23: operations on different objects never interfere.
//
// The library is built with -fsanitize=thread, but linked with this file
// instead of the ThreadSanitizer run-time: every memory access of the library
// (and every memory- or string-function it calls) becomes a scheduling point
// under our control.
//   nested:      operation A is preempted before its k-th access, for every k
//                (and after its last one), by the complete operation B.
//   interleaved: A and B run as coroutines.  Accesses of A and B to the same
//                address, one of them a write, are dependent; all schedules
//                that differ in the order of dependent accesses are explored up
//                to a bound on preemptions (partial-order reduction: without
//                dependent accesses all schedules are equivalent).
#include "text.hpp"
#include "avltree.h"
#include "list.h"
#include "hashtable.h"
#include "priority_queue.h"
#include "bytearray.h"
#include "intset.h"
#include "base64.h"
#include "charstr.h"
#include "date.h"
#include "float.h"
#include "integer.h"
#include <set>
#include <map>
#include <ucontext.h>
#include <csignal>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <ctime>
using namespace mc;

// ----------------------------------------------------------- scheduling points
static bool active;              // points are live (library code of an operation)
static uint64_t nth, target;     // points so far; where to preempt
static void (*on_preempt)();
struct Access { uintptr_t a; uint32_t n; bool w; };
static std::vector<Access> *record;            // accesses of the current coroutine
static void co_point(uintptr_t a, size_t n, bool w);
static bool co_mode;

// From one point to the next, the processor's single-step mode can interrupt the
// library at every instruction, with a real signal.
extern "C" { extern char __start_fsdyn_text[] __attribute__((weak)); extern char __stop_fsdyn_text[] __attribute__((weak)); }
static bool fine;
static volatile int stepping;
static int own_steps, foreign_steps;
static void on_step(int, siginfo_t *, void *c)
{
    greg_t *r = ((ucontext_t *)c)->uc_mcontext.gregs;
    if (stepping && (char *)r[REG_RIP] >= __start_fsdyn_text && (char *)r[REG_RIP] < __stop_fsdyn_text) {
        if (own_steps++) on_preempt();              // the first instruction is the point itself
    } else if (stepping && ++foreign_steps > 3000) stepping = 0;
    if (!stepping) r[REG_EFL] &= ~(greg_t)0x100;
}
__attribute__((noinline)) static void step_from_here()
{
    stepping = 1; own_steps = foreign_steps = 0;
    asm volatile("lea -256(%%rsp), %%rsp\n pushfq\n orq $0x100, (%%rsp)\n popfq\n lea 256(%%rsp), %%rsp" ::: "cc", "memory");
}
static void install_stepper()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_step;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
}
static inline void point(const void *p, size_t n, bool w)
{
    if (!active) return;
    if (co_mode) { co_point((uintptr_t)p, n, w); return; }
    if (stepping) stepping = 0;         // the next point: enough instructions
    if (nth++ == target) { if (fine) step_from_here(); else on_preempt(); }
}
// Thread-local variables of the library (there are none at present) belong to
// the thread: each simulated thread has its own copy of them, and of errno.
static char *tls;
static size_t tls_size;
static const char *tls_image;
static size_t tls_image_size;
static void find_tls()
{
    static bool done;
    if (done) return;
    done = true;
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) {
        if (*i->dlpi_name) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_phdr[k].p_memsz) {
                tls = (char *)i->dlpi_tls_data;
                tls_size = i->dlpi_phdr[k].p_memsz;
                tls_image = (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                tls_image_size = i->dlpi_phdr[k].p_filesz;
            }
        return 1;
    }, nullptr);
}
static std::string tls_fresh() { std::string r; if (tls) { r.assign(tls_image, tls_image_size); r.resize(tls_size); } return r; }
static std::string tls_save() { return tls ? std::string(tls, tls_size) : std::string(); }
static void tls_load(const std::string &s) { if (tls) memcpy(tls, s.data(), tls_size); }
static bool thread_local_address(uintptr_t a) { return (a >= (uintptr_t)&errno && a < (uintptr_t)&errno + sizeof errno) || (tls && a >= (uintptr_t)tls && a < (uintptr_t)tls + tls_size); }

struct Quiet { bool old; Quiet() : old(active) { active = false; } ~Quiet() { active = old; } };

#include "tsan_hooks.hpp"

// ------------------------------------------------- an allocator without reuse
enum : size_t { POOL = 256u << 20 };
static char *pool, *pool_top;
enum { GUARD = 32 };
static void *bump(void *p, size_t n)
{
    Quiet q;
    if (!pool) { pool = (char *)mmap(nullptr, POOL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pool_top = pool; }
    if (!n) return nullptr;
    if ((size_t)(pool + POOL - pool_top) < n + 64) { fprintf(stderr, "pool exhausted\n"); _exit(3); }
    size_t *h = (size_t *)pool_top;
    *h = n;
    char *r = pool_top + 16;
    pool_top += 16 + (n + 15 + GUARD) / 16 * 16;
    memset(r, 0xd3, pool_top - r);
    if (p) memcpy(r, p, std::min(n, ((size_t *)p)[-2]));
    return r;
}
static void pool_reset() { pool_top = pool; }
// Nothing was written behind any block.
static bool pool_intact()
{
    for (char *p = pool; p && p < pool_top;) {
        size_t n = *(size_t *)p;
        char *r = p + 16, *end = r + (n + 15 + GUARD) / 16 * 16;
        if (n > POOL || end > pool_top) return false;
        for (char *g = r + n; g < end; g++) if (*g != (char)0xd3) return false;
        p = end;
    }
    return true;
}

// ------------------------------------------------------------------ operations
// Each works on objects of its own and reports everything it observes; i is
// the instance (0 or 1), so that the two runs of the same operation differ.
typedef std::string S;
// The operation's user reads a result in memory it does not own.
static const char *rd(const char *p) { if (p) point(p, strlen(p) + 1, false); return p; }
static S num(long long n) { return std::to_string(n) + ";"; }
static S str(char *p) { if (!p) return "NULL;"; S r = p; fsfree(p); return r + ";"; }
static S strs(list_t *l) { S r; while (!list_empty(l)) r += str((char *)list_pop_first(l)); destroy_list(l); return r; }
static int cmp2(const void *a, const void *b, void *obj) { long s = *(long *)obj; return s * integer_cmp(a, b); }
struct Locs { std::map<const void *, void *> m; };
static void reloc2(const void *e, void *loc, void *obj) { Quiet q; (*(Locs **)obj)->m[e] = loc; }
static int pcmp2(const void *a, const void *b, void *) { return integer_cmp(a, b); }
struct Src { S data; size_t at; int step; };
static ssize_t read_cb(void *obj, void *buf, size_t count)
{
    Quiet q;
    Src *s = (Src *)obj;
    size_t n = std::min({count, (size_t)s->step, s->data.size() - s->at});
    memcpy(buf, s->data.data() + s->at, n);
    s->at += n;
    return n;
}
struct Oper { S name; std::function<S(int)> f; int variants = 2; };
static std::vector<Oper> opers()
{
    std::vector<Oper> v;
    auto K = [](intptr_t x) { return (const void *)as_integer(x); };
    v.push_back({"avl tree", [K](int i) {
        static long sg[2] = {1, -1};
        avl_tree_t *t = i ? make_avl_tree(integer_cmp) : make_avl_tree_2(cmp2, &sg[0]);
        S r;
        for (int k = 0; k < 7; k++) { avl_elem_t *o = avl_tree_put(t, K((k * (i ? 3 : 5) + 11) % 7 + i * 10), K(k)); if (o) destroy_avl_element(o); }
        for (avl_elem_t *e = avl_tree_get_first(t); e; e = avl_tree_next(e)) r += num((intptr_t)avl_elem_get_key(e)) + num((intptr_t)avl_elem_get_value(e));
        for (int k = 0; k < 5; k++) { avl_elem_t *e = avl_tree_pop(t, K(k * 2 + i * 10)); r += num(e ? (intptr_t)avl_elem_get_value(e) : -1); if (e) destroy_avl_element(e); }
        avl_elem_t *e = avl_tree_get_on_or_after(t, K(2 + i * 10));
        r += num(e ? (intptr_t)avl_elem_get_key(e) : -1);
        e = avl_tree_get_before(t, K(9 + i * 10));
        r += num(e ? (intptr_t)avl_elem_get_key(e) : -1) + num(avl_tree_size(t));
        avl_tree_t *c = avl_tree_copy(t);
        destroy_avl_tree(t);
        for (avl_elem_t *x = avl_tree_get_last(c); x; x = avl_tree_previous(x)) r += num((intptr_t)avl_elem_get_key(x));
        destroy_avl_tree(c);
        return r;
    }});
    v.push_back({"list", [K](int i) {
        list_t *l = make_list();
        S r;
        for (int k = 0; k < 4; k++) { list_append(l, K(k + 10 * i)); list_prepend(l, K(k + 100 * i + 50)); }
        list_insert_before(l, K(7), list_get(l, K(2 + 10 * i)));
        list_remove(l, list_get_by_index(l, 3 + i));
        r += num((intptr_t)list_pop_last(l)) + num(list_size(l));
        list_foreach(l, [](const void *x, void *o) { Quiet q; *(S *)o += num((intptr_t)x); }, &r);
        list_t *c = list_copy(l);
        destroy_list(l);
        for (list_elem_t *e = list_get_last(c); e; e = list_previous(e)) r += num((intptr_t)list_elem_get_value(e));
        destroy_list(c);
        return r;
    }});
    v.push_back({"hash table", [K](int i) {
        hash_table_t *t = make_hash_table(3 + i, (uint64_t (*)(const void *))hash_integer, integer_cmp);
        S r;
        for (int k = 0; k < 6; k++) { hash_elem_t *o = hash_table_put(t, K(k * 3 % 5 + 20 * i), K(k)); if (o) { r += num((intptr_t)hash_elem_get_value(o)); destroy_hash_element(o); } }
        for (int k = 0; k < 4; k++) { hash_elem_t *e = hash_table_get(t, K(k + 20 * i)); r += num(e ? (intptr_t)hash_elem_get_value(e) : -1); }
        hash_elem_t *e = hash_table_pop(t, K(3 + 20 * i));
        if (e) { r += num((intptr_t)hash_elem_get_value(e)); destroy_hash_element(e); }
        long sum = 0;
        for (e = hash_table_get_any(t); e; e = hash_table_get_other(e)) sum = sum * 7 + (intptr_t)hash_elem_get_key(e);
        r += num(sum) + num(hash_table_size(t));
        destroy_hash_table(t);
        return r;
    }});
    v.push_back({"priority queue", [K](int i) {
        Locs *l;
        { Quiet q; l = new Locs; }
        Locs **h = &l;
        priorq_t *p = make_priority_queue_2(pcmp2, reloc2, h);
        S r;
        for (int k = 0; k < 6; k++) priorq_enqueue(p, K((k * 5 + i) % 6 + 1 + 10 * i));
        r += num((intptr_t)priorq_dequeue(p));
        void *loc; { Quiet q; loc = l->m[K(4 + 10 * i)]; }
        r += num((intptr_t)priorq_remove(p, loc)) + num(priorq_size(p));
        while (!priorq_empty(p)) r += num((intptr_t)priorq_pop(p));
        destroy_priority_queue(p);
        { Quiet q; delete l; }
        return r;
    }});
    v.push_back({"byte array", [](int i) {
        byte_array_t *a = make_byte_array(40);
        S r = num(byte_array_append_string(a, i ? "hello" : "good-bye, "));
        byte_array_t *b = share_byte_array(a);
        Src s{i ? "0123456789012345678901234567890123456789" : "abcdefghijklmnopqrstuvwxyz", 0, 13};
        r += num(byte_array_append_stream(b, read_cb, &s, 20)) + num(byte_array_copy(a, 2, "XY", 2)) + num(byte_array_append(a, "0123456789ABCDEFGHIJKLMN", 24 - i));
        r += num(byte_array_resize(a, 30 + i, 'q'));
        destroy_byte_array(a);
        r += S(rd((const char *)byte_array_data(b)), byte_array_size(b) + 1);
        byte_array_clear(b);
        r += num(byte_array_size(b));
        destroy_byte_array(b);
        return r;
    }});
    v.push_back({"integer set", [](int i) {
        intset_t *s = make_intset(70 + 60 * i);
        S r;
        if (i) intset_fill(s);
        for (unsigned e : {3u, 63u, 64u, 69u, 100u}) { if (i) intset_remove(s, e); else intset_add(s, e); r += num(intset_has(s, e)); }
        for (int e = -1;;) { e = i ? intset_find_next_miss(s, e + 1) : intset_find_next_hit(s, e + 1); r += num(e); if (e < 0) break; }
        r += num(intset_empty(s));
        destroy_intset(s);
        return r;
    }});
    v.push_back({"allocation primitives", [](int i) {
        char *p = (char *)fscalloc(3, 5 + i);
        S r;
        for (int k = 0; k < 15; k++) r += num(p[k]);
        memset(p, 'x' + i, 15);
        p = (char *)fsrealloc(p, 40);
        r += S(p, 15);
        fsfree(p);
        fs_reallocator_skew(0);
        return r;
    }});
    v.push_back({"base64 encoding", [](int i) {
        S in = i ? "Man is distinguished" : "\xff\xfe\x01\x02hello!?", r = str(base64_encode_simple(in.data(), in.size()));
        char b[64];
        size_t n = base64_encode_buffer(in.data(), in.size(), b, sizeof b, '-', '_');
        return r + S(b, n) + num(base64_encoding_size(10 + i));
    }});
    v.push_back({"base64 decoding", [](int i) {
        const char *in = i ? "TWFuIGlzIGRpc3Rp" : "//4BAmhlbGxvIQ==";
        size_t n = 0;
        char *p = (char *)base64_decode_simple(in, &n);
        S r = p ? S(p, n) : "NULL";
        if (p) fsfree(p);
        char b[64];
        const char *in2 = i ? " -_8 = " : "T W\nFu\t";
        ssize_t m = base64_decode_buffer(in2, strlen(in2), b, sizeof b, '-', '_', true);
        return r + num(m) + (m > 0 ? S(b, m) : "");
    }});
    v.push_back({"UTF-8 conversion", [](int i) {
        S r;
        int c = 0;
        const char *in = i ? "\xe2\x82\xac" "x" : "\xf0\x9f\x92\xa9y", *p = charstr_decode_utf8_codepoint(in, nullptr, &c);
        r += num(p - in) + num(c);
        char b[8];
        char *q = charstr_encode_utf8_codepoint(i ? 0x20ac : 0x1f600, b, b + 8);
        r += S(b, q - b);
        r += num(charstr_valid_utf8(i ? "\xc3\xa4\xff" : "abc\xc3\xa4")) + num(charstr_valid_utf8_bounded(in, in + 2 + i));
        return r;
    }});
    v.push_back({"UTF-8 sanitizing", [](int i) { return str(charstr_sanitize_utf8(i ? "a\xff" "b\xc3\xa4\xed\xa0\x80" : "\xe2\x82x\xf0\x9f\x92\xa9\x80")); }});
    v.push_back({"Unicode properties", [](int i) {
        S r;
        for (int c : {0x41 + i * 32, 0x391 + i * 32, 0x301 + i, 0x1d165, 0xac00 + i}) r += num(charstr_unicode_category(c)) + num(charstr_naive_lcase_unicode(c)) + num(charstr_naive_ucase_unicode(c)) + num(charstr_allowed_unicode_normal_forms(c)) + num(charstr_unicode_canonical_combining_class(c));
        return r;
    }});
    v.push_back({"normal form detection", [](int i) {
        const char *s = i ? "a\xcc\x81\xcc\xa3" : "\xc3\xa1\xea\xb0\x81";
        return num(charstr_detect_unicode_normal_form(s, nullptr, UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE)) + num(charstr_unicode_canonically_composed(s, nullptr)) + num(charstr_unicode_canonically_decomposed(s, s + strlen(s)));
    }});
    v.push_back({"decomposition", [](int i) {
        char b[64];
        char *p = charstr_unicode_decompose(i ? "\xe1\xbe\x82z\xcc\x95\xf0\x9d\x85\xad" : "\xea\xb0\x81\xe1\xba\xad\xcc\xa7", nullptr, b, b + 64);
        return p ? S(b, p - b + 1) : "NULL";
    }});
    v.push_back({"recomposition", [](int i) {
        char b[64];
        char *p = charstr_unicode_recompose(i ? "\xce\xb1\xcc\x93\xcc\x80\xcd\x85" : "\xe1\x84\x80\xe1\x85\xa1\xe1\x86\xa8" "a\xcc\xa3\xcc\x82", nullptr, b, b + 64);
        return p ? S(b, p - b + 1) : "NULL";
    }});
    v.push_back({"host name encoding", [](int i) { return str(charstr_idna_encode(i ? "B\xc3\xbc" "cher.\xe4\xbe\x8b.a" : "\xc3\xa4\xc2\xad" "a\xcc\x88-\xd1\x8f.de.")); }});
    v.push_back({"refused host name", [](int i) { return str(charstr_idna_encode(i ? "\xc3\xa4..\xff" : "a\xcc\x88 b")) + str(charstr_idna_encode(i ? "ABC.def" : "[::1]")); }});
    v.push_back({"IDNA properties", [](int i) {
        S r;
        for (int c : {0x41 + i, 0xad, 0xdf, 0x3b9, 0x2f868 + i, 0x3002}) { const char *m = charstr_idna_mapping(c); const char *st = charstr_idna_status(c); rd(m); rd(st); r += S(st) + (m ? m : "-"); }
        return r;
    }});
    v.push_back({"URL encoding", [](int i) {
        S r = str(charstr_url_encode(i ? "a b&c=\xc3\xa4" : "100% ~/x+y\xff"));
        const char *p = charstr_url_encode_byte(i ? '&' : 0xff), *q = charstr_url_encode_byte(i ? 'a' : ' ');
        rd(p); rd(q);
        return r + p + q;
    }});
    v.push_back({"URL byte encoding", [](int i) {
        const char *p = charstr_url_encode_byte(i ? 0x01 : 0xfe);
        return S(rd(p));
    }});
    v.push_back({"URL decoding", [](int i) {
        size_t n = 0;
        char *p = charstr_url_decode(i ? "a%20b+%00z" : "%C3%a4+~", i, &n);
        S r = p ? S(p, n) + num(n) : "NULL";
        if (p) fsfree(p);
        return r + str(charstr_url_decode(i ? "%4" : "%zz", true, nullptr));
    }});
    v.push_back({"custom URL encoder", [](int i) {
        charstr_url_encoder_t *e = charstr_create_url_encoder(i ? "az~" : "./", i ? "&=" : " %");
        S r = str(charstr_url_custom_encode(e, i ? "az b~&=x" : "a./ %b+"));
        const char *p = charstr_url_custom_encode_byte(e, i ? 'a' : '.'), *q = charstr_url_custom_encode_byte(e, i ? '&' : '%');
        r += S(rd(p)) + rd(q);
        charstr_destroy_url_encoder(e);
        return r;
    }});
    v.push_back({"splitting", [](int i) {
        S r = strs(charstr_split(i ? "a,b,,c" : ";x;yz;", i ? ',' : ';', 2 + i)) + strs(charstr_split_str(i ? "one--two----" : "<=>a<=>b", i ? "--" : "<=>", -1));
        char *arr[4];
        unsigned n = charstr_split_into_array(i ? "p:q:r:s:t" : "m::n", ':', arr, 3);
        for (unsigned k = 0; k <= n; k++) r += str(arr[k]);
        return r;
    }});
    v.push_back({"splitting into atoms", [](int i) { return strs(charstr_split_atoms(i ? " the quick\t\nfox " : "  lazy\rdog\fx")) + str(charstr_strip(i ? " \t in \n" : "out  ")); }});
    v.push_back({"duplication and formatting", [](int i) {
        const char *s = i ? "first string" : "SECOND one";
        return str(charstr_dupstr(s)) + str(charstr_dupsubstr(s + 2, s + 6)) + str(charstr_printf("%d-%s|%5.2f", 42 + i, s, 1.5 + i)) + str(charstr_printf("%s%s%s", s, s, s));
    }});
    v.push_back({"case conversion", [](int i) {
        char a[] = "Hello World @[`{", b[] = "xyzABC\xc4";
        S r = i ? charstr_lcase_str(a) : charstr_ucase_str(a);
        if (i) charstr_ucase_substr(b + 1, b + 5); else charstr_lcase_substr(b + 3, b + 6);
        r += b;
        for (char c : {'a', 'Z', '9', '\t', '\xe4'}) r += num(charstr_char_class(c + i)) + charstr_lcase_char(c) + charstr_ucase_char(c) ;
        return r + num(charstr_digit_value(i ? 'f' : '7'));
    }});
    v.push_back({"comparison", [](int i) {
        const char *a = i ? "Content-Type" : "HOST", *b = i ? "content-length" : "host";
        const char *p = charstr_skip_prefix(a, i ? "Cont" : "host"), *q = charstr_case_skip_prefix(a, i ? "CONTENT-" : "ho");
        auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
        return num(sg(charstr_case_cmp(a, b))) + num(sg(charstr_ncase_cmp(a, b, 8))) + num(p ? p - a : -1) + num(q ? q - a : -1) + num(charstr_ends_with(a, i ? "Type" : "OST!"));
    }});
    v.push_back({"calendar", [](int i) {
        struct tm tm;
        memset(&tm, 0, sizeof tm);
        struct tm *p = epoch_to_utc(i ? -86400LL * 365 * 200 + 12345 : 1709210096, &tm);
        point(p, sizeof *p, false);
        return num(p->tm_year) + num(p->tm_mon) + num(p->tm_mday) + num(p->tm_wday) + num(p->tm_hour) + num(p->tm_min) + num(p->tm_sec) + num(p == &tm);
    }});
    v.push_back({"number conversion", [](int i) {
        long long n = 0; unsigned long long u = 0;
        S r = num(binary64_to_integer(i ? 0xc05ec00000000000 : 0x4059000000000000, &n)) + num(n);
        r += num(binary64_to_unsigned(i ? 0x43e0000000000000 : 0x3fe0000000000000, &u)) + num(u);
        char blob[] = "binary\0blob";
        return r + num(hash_string(i ? "abc" : "xyzzy")) + num(hash_integer(as_integer(i ? -1 : 77))) + num(hash_unsigned(as_unsigned(9 + i))) + num(hash_blob(blob + i, 8)) + num(integer_cmp(as_integer(i), as_integer(1))) + num(unsigned_cmp(as_unsigned(-1), as_unsigned(i)));
    }});
    // The same modules again, along all their paths and with several inputs per path.
    auto many = [&v](const char *name, int variants, std::function<S(int)> f) { v.push_back({name, f, variants}); };
    many("avl tree rotations", 4, [K](int i) {
        static const int order[4][12] = {{6, 2, 9, 1, 4, 8, 11, 3, 5, 7, 10, 12}, {12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1}, {5, 12, 3, 10, 1, 8, 6, 11, 4, 9, 2, 7}, {7, 1, 12, 2, 11, 3, 10, 4, 9, 5, 8, 6}};
        static long sg[2] = {1, -1};
        avl_tree_t *t = i % 2 ? make_avl_tree_2(cmp2, &sg[i / 2 % 2 == 0]) : make_avl_tree(integer_cmp);
        S r;
        auto show = [&](avl_elem_t *e) { r += num(e ? (intptr_t)avl_elem_get_key(e) * 100 + (intptr_t)avl_elem_get_value(e) : -1); };
        show(avl_tree_get_first(t)); show(avl_tree_get_last(t)); show(avl_tree_pop_first(t));
        for (int k : order[i]) avl_tree_put(t, K(k * 10), K(k));
        avl_tree_put(t, K(order[i][3] * 10), K(order[i][3]));
        for (int k : {3, 8, 11}) { avl_elem_t *o = avl_tree_put(t, K(order[i][k] * 10), K(50 + k)); show(o); if (o) destroy_avl_element(o); }
        for (int k : {5, 10, 55, 60, 120, 125}) { show(avl_tree_get(t, K(k))); show(avl_tree_get_before(t, K(k))); show(avl_tree_get_on_or_before(t, K(k))); show(avl_tree_get_after(t, K(k))); show(avl_tree_get_on_or_after(t, K(k))); }
        avl_tree_t *c = avl_tree_copy(t);
        for (int k = 0; k < 8; k++) avl_tree_remove(t, avl_tree_get(t, K(order[(i + 1) % 4][k] * 10)));
        for (avl_elem_t *e = avl_tree_get_first(t); e; e = avl_tree_next(e)) show(e);
        avl_elem_t *e = avl_tree_pop_first(t);
        show(e); destroy_avl_element(e);
        e = avl_tree_pop_last(t);
        show(e); destroy_avl_element(e);
        while (!avl_tree_empty(c)) { e = avl_tree_size(c) % 3 ? avl_tree_pop_last(c) : avl_tree_pop_first(c); show(e); destroy_avl_element(e); }
        destroy_avl_tree(t);
        destroy_avl_tree(c);
        return r;
    });
    many("list ends", 2, [K](int i) {
        list_t *l = make_list();
        S r = num((intptr_t)list_pop_first(l)) + num((intptr_t)list_pop_last(l)) + num(list_empty(l));
        list_elem_t *e = list_prepend(l, K(5 + i));
        e = list_insert_before(l, K(6 + i), e);
        list_insert_before(l, K(7 + i), e);
        list_remove(l, list_get_last(l));
        r += num(list_get(l, K(77)) != nullptr) + num(list_get_by_index(l, 9) != nullptr);
        list_append(l, K(9 + i));
        list_remove(l, list_get_first(l));
        while (!list_empty(l)) r += num((intptr_t)list_pop_first(l));
        destroy_list(l);
        return r;
    });
    many("hash table collisions", 2, [K](int i) {
        hash_table_t *t = make_hash_table(i ? 2 : 5, (uint64_t (*)(const void *))hash_integer, integer_cmp);
        S r = num(hash_table_empty(t)) + num(hash_table_get(t, K(3)) != nullptr) + num(hash_table_pop_any(t) != nullptr);
        for (int k = 0; k < 5; k++) hash_table_put(t, K(k * 10 + 1 + i), K(k));
        for (int k = 0; k < 2; k++) { hash_elem_t *o = hash_table_put(t, K(k * 10 + 1 + i), K(k * 5)); r += num(o ? (intptr_t)hash_elem_get_value(o) : -1); if (o) destroy_hash_element(o); }
        r += num(hash_table_get(t, K(61 + i)) != nullptr);
        hash_table_remove(t, hash_table_get(t, K(21 + i)));
        long sum = 0;
        for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e)) sum = sum * 7 + (intptr_t)hash_elem_get_key(e);
        r += num(sum);
        while (hash_elem_t *e = hash_table_pop_any(t)) { r += num((intptr_t)hash_elem_get_key(e)); destroy_hash_element(e); }
        destroy_hash_table(t);
        return r;
    });
    many("priority queue order", 2, [K](int i) {
        priorq_t *p = make_priority_queue(integer_cmp, nullptr);
        S r = num((intptr_t)priorq_peek(p)) + num((intptr_t)priorq_pop(p)) + num((intptr_t)priorq_dequeue(p));
        for (int k = 0; k < 11; k++) priorq_enqueue(p, K((k * (i ? 7 : 4)) % 11 / 2 + 1));
        for (int k = 0; k < 11; k++) r += num((intptr_t)priorq_peek(p)) + num((intptr_t)priorq_dequeue(p));
        r += num(priorq_empty(p));
        destroy_priority_queue(p);
        return r;
    });
    many("byte array growth", 2, [](int i) {
        byte_array_t *a = make_byte_array(400 + i);
        S r, big(150, i ? 'Q' : 'w');
        r += num(byte_array_append_string(a, i ? "north" : "southern")) + num(byte_array_append(a, big.data(), big.size())) + num(byte_array_copy(a, 1000, "x", 1));
        r += num(byte_array_copy(a, byte_array_size(a) - 3, i ? "fghijk" : "FGHIJKL", 6)) + num(byte_array_copy_string(a, 4, i ? "over" : "under")) + num(byte_array_copy_string(a, byte_array_size(a), "tail"));
        r += num(byte_array_resize(a, 300, '0' + i)) + num(byte_array_resize(a, 4000, '0'));
        r += num(byte_array_append(a, big.data(), big.size())) + num(byte_array_copy(a, 290, big.data(), 150));
        Src s{S(500, i ? 'm' : 'n'), 0, 200};
        r += num(byte_array_append_stream(a, read_cb, &s, 30)) + num(byte_array_append_stream(a, [](void *, void *, size_t) { return (ssize_t)-1; }, nullptr, 5));
        r += num(byte_array_append_stream(a, read_cb, &s, 800)) + num(byte_array_append_stream(a, read_cb, &s, 800));
        r += S(rd((const char *)byte_array_data(a)), byte_array_size(a) + 1) + num(byte_array_resize(a, 7, 'x'));
        destroy_byte_array(a);
        return r;
    });
    many("byte array doubling", 2, [](int i) {
        byte_array_t *a = make_byte_array(i ? 20000 : 400);
        S r;
        for (int k = 0; k < (i ? 11 : 3); k++) { S part(i ? 90 << k / 2 : 60, 'A' + k); r += num(byte_array_append(a, part.data(), part.size())) + num(byte_array_size(a)); }
        r += S(rd((const char *)byte_array_data(a)), byte_array_size(a) + 1);
        destroy_byte_array(a);
        return r;
    });
    many("integer set membership", 2, [](int i) {
        intset_t *s = make_intset(200);
        S r;
        for (unsigned e = i; e < 210; e += 13) intset_add(s, e);
        for (unsigned e = i; e < 210; e += 26) intset_remove(s, e);
        for (unsigned e : {0u, 13u, 14u, 64u, 65u, 199u, 200u, 5000u}) r += num(intset_has(s, e)) + num(intset_find_next_hit(s, e)) + num(intset_find_next_miss(s, e));
        intset_fill(s);
        intset_remove(s, 100 + i);
        r += num(intset_find_next_miss(s, 3)) + num(intset_find_next_miss(s, 150)) + num(intset_empty(s));
        destroy_intset(s);
        return r;
    });
    many("allocator queries", 2, [](int) { return num(fs_get_reallocator() == bump) + num(fs_get_reallocator_counter() != nullptr); });
    many("base64 encoding into a buffer", 4, [](int i) {
        static const char *in[4] = {"\xfb\xef\xbe\xff\xff\xfe?", "abcdefghij", ">>>?>?>>", "0123456"};
        S r;
        for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, strlen(in[i])}) for (size_t room : {0, 3, 4, 6, 20}) {
            char b[24] = "";
            size_t m = base64_encode_buffer(in[i], n, b, room, i & 1 ? '-' : -1, i & 1 ? '_' : -1);
            r += num(m) + b;
        }
        return r + str(base64_encode_simple(in[i], strlen(in[i]))) + num(base64_encoding_size(100 + i)) + num(base64_encoding_size(-1));
    });
    many("base64 decoding into a buffer", 10, [](int i) {
        static const char *in[10] = {"QUJD REVG\nR0g=", "+/+/aa==", "QQ = =\n", "-_-_AAA=", "QUI", "Zm9v!YmFy", "Zg\t=\t= ", "ZgA=x", "A", "-_-+AA"};
        S r;
        for (int strict = 0; strict < 2; strict++) for (size_t room : {0, 2, 12}) {
            char b[16] = "";
            ssize_t m = base64_decode_buffer(in[i], i & 1 ? -1 : strlen(in[i]), b, room, i == 3 ? '-' : -1, i == 3 ? '_' : -1, !strict);
            r += num(m) + (m > 0 ? S(b, std::min((size_t)m, room)) : "");
        }
        size_t n = 0;
        char *p = (char *)base64_decode_simple(in[i], &n);
        r += p ? S(p, n) : "NULL";
        if (p) fsfree(p);
        return r;
    });
    many("UTF-8 encoding and decoding", 4, [](int i) {
        S r;
        char b[8];
        static const int cps[4][4] = {{0x41, 0x3b1, 0x20ac, 0x1f600}, {0x7f, 0x7ff, 0xffff, 0x10ffff}, {0x61, 0x80, 0x800, 0x10000}, {0x30, 0x416, 0x4e2d, 0x2f800}};
        for (int c : cps[i]) for (int room = 0; room < 5; room++) { char *q = charstr_encode_utf8_codepoint(c, b, b + room); r += q ? S(b, q - b) : "-"; }
        static const char *in[4] = {"\xf0\x9f\x92\xa9", "\xf4\x90\x80\x80", "\xe0\x80\x80", "\xed\xa0\x80"}, *more[4] = {"\x80", "\xf8\x80", "\xc3", "\xe2\x28"};
        for (const char *s : {in[i], more[i]}) for (size_t n = 0; n <= strlen(s); n++) { int c = 0; const char *q = charstr_decode_utf8_codepoint(s, s + n, &c); r += num(q ? q - s : -1) + num(c) + num(charstr_valid_utf8_bounded(s, s + n)); }
        return r + num(charstr_valid_utf8(in[i])) + str(charstr_sanitize_utf8((S("<") + more[i] + in[i] + ">").c_str()));
    });
    static const char *texts[] = {"a\xcc\x80\xcc\xa3", "e\xcc\x81\xcc\xa7\xcc\xa3", "\xe1\xba\xad\xcc\xa7\xcc\x9b", "\xc7\x96\xcc\xa3\xcc\x95\xcc\x9b", "\xea\xb0\x80\xe1\x86\xa8x\xea\xb0\x81", "\xe1\x84\x92\xe1\x85\xa1\xe1\x86\xab\xed\x95\x9c", "\xcc\x81\xcc\x81q", "\xcc\xa3" "a\xcc\x82",
                                  "\xe2\x84\xab\xcc\x87z", "\xf0\x9d\x85\x9e\xef\xac\xab", "abc", "\xd0\xb8\xcc\x86\xd1\x8a", "\xff" "ab", "k\xcc\x81\xe2\x82", "", "\xcd\x85\xcc\x93\xce\xb1"};
    many("normalization", 16, [](int i) {
        const char *s = texts[i], *e = s + strlen(s);
        S r;
        char b[128];
        for (size_t room : {(size_t)0, (size_t)3, (size_t)128}) {
            char *q = charstr_unicode_decompose(s, room == 3 ? nullptr : e, b, b + room);
            r += q ? S(b, q - b) : "-";
            q = charstr_unicode_recompose(s, room == 3 ? nullptr : e, b, b + room);
            r += q ? S(b, q - b) : "-";
        }
        char *q = charstr_unicode_decompose(s, e, b, b + 128);
        if (q) { char c[128]; char *z = charstr_unicode_recompose(b, q, c, c + 128); r += z ? S(c, z - c) : "-"; }
        return r + num(charstr_unicode_canonically_composed(s, e)) + num(charstr_unicode_canonically_decomposed(s, e)) + num(charstr_detect_unicode_normal_form(s, nullptr, UNICODE_NFKC_DISALLOWED, UNICODE_NFKC_MAYBE)) + num(charstr_detect_unicode_normal_form(s, e, UNICODE_NFKD_DISALLOWED, UNICODE_NFKD_MAYBE));
    });
    static const std::vector<S> hosts = {"M\xc3\xbcnchen.de", "www.e\xcc\x81\xcc\xa3t.fr.", "\xe1\xba\xad\xcc\xa7.\xe4\xb8\xad\xe5\x9b\xbd", "\xc7\x96\xcc\xa3x-\xd1\x8f\xd0\xb6.a", "\xef\xbc\xa1\xef\xbc\xa2\xc3\x9f.\xe2\x82\xa8", "\xd9\xa0\xe2\x84\xa1\xe2\x80\x8d" "k", "\xc3\xa4-", "-\xc3\xb6",
                                         "\xc3\xa4.-b", "a..\xc3\xa4", "\xc3\xa4.", "\xe0\xa4\x83\xe0\xa4\x95", "x\xc3\xa9_y", "\xc3\xa9 y", "\xe2\x80\x8b\xc3\xa9", "\xef\xb7\xba\xef\xb7\xba", "\xc3\xa4\xff", S("\xc3\xa4") + S(70, 'a'), S(70, 'b') + ".\xc3\xa9", "e\xcc\x81t.fr", "\xd0\xb8\xcc\x86.\xd1\x8f.", "\xc3\xa4\xc3\xa4k\xc3\xa4", "\xd1\x8f\xd1\x8fz\xd1\x8f", "\xe0\xa4\xbe\xe0\xa4\x95", "\xc3\xb6-", "\xc3\xb6\xe2\x84\x80", "\xc3\xa9\xe2\x84\x81z", "\xc3\xa4." + S(2000, 'c'), "\xe4\xb8\xad." + S(1500, 'd'), "\xc3\xa9.a/b", "\xc3\xa4.\xef\xbc\x8f", [] { S x = "\xc3\xa4"; for (int i = 0; i < 100; i++) x += ".ab"; return x; }(), [] { S x = "\xd1\x8f"; for (int i = 0; i < 90; i++) x += ".xyz"; return x; }(), [] { S x = "a"; for (int i = 0; i < 110; i++) x += "\xcc\x81"; return x; }(), [] { S x = "e\xcc\x81\xcc\xa3"; for (int i = 0; i < 110; i++) x += "\xcc\xa3\xcc\x81"; return x; }(), "\xe4\xbe\x8b\xe3\x81\x88.\xe3\x83\x86\xe3\x82\xb9\xe3\x83\x88\xe3\x80\x82jp"};
    many("host names", hosts.size(), [](int i) { return str(charstr_idna_encode(hosts[i].c_str())); });
    many("code point properties", 8, [](int i) {
        static const int cps[8][3] = {{0x41, 0xac00, 0x10ffff}, {0x1c5, 0xdf, 0x345}, {0x3a3, 0x2f81a, 0x1e9e}, {0xad, 0x200c, 0x2260}, {0xa0, 0x20000, 0xe000}, {0x3002, 0x1d15e, 0x61}, {0xe0100, 0x340, 0x5b}, {0x378, 0x130, 0xa8}};
        S r;
        for (int c : cps[i]) {
            r += num(charstr_unicode_category(c)) + num(charstr_naive_lcase_unicode(c)) + num(charstr_naive_ucase_unicode(c)) + num(charstr_allowed_unicode_normal_forms(c)) + num(charstr_unicode_canonical_combining_class(c));
            const char *m = charstr_idna_mapping(c), *st = charstr_idna_status(c);
            rd(m); rd(st);
            r += S(st) + (m ? m : "-");
            r += num(charstr_idna_status_is_valid(c)) + num(charstr_idna_status_is_mapped(c)) + num(charstr_idna_status_is_ignored(c)) + num(charstr_idna_status_is_deviation(c)) + num(charstr_idna_status_is_disallowed(c)) + num(charstr_idna_status_is_disallowed_STD3_valid(c)) + num(charstr_idna_status_is_disallowed_STD3_mapped(c));
        }
        return r;
    });
    many("URL decoding and custom encoding", 4, [](int i) {
        static const char *enc[4] = {"a%", "%e4+%F6", "x%0g", "%7e%7E+"}, *raw[4] = {"a b", "%+~", "q&r", "\xe4/\xff"};
        size_t n = 0;
        char *p = charstr_url_decode(enc[i], i & 1, &n);
        S r = p ? S(p, n) + num(n) : "NULL";
        if (p) fsfree(p);
        r += str(charstr_url_encode(raw[i]));
        for (const char *x : {" q", "%~"}) { charstr_url_encoder_t *e = charstr_create_url_encoder(i & 1 ? x : "a", i & 1 ? "&" : x); r += str(charstr_url_custom_encode(e, raw[i])) + rd(charstr_url_custom_encode_byte(e, raw[i][0])); charstr_destroy_url_encoder(e); }
        return r + rd(charstr_url_encode_byte(raw[i][1]));
    });
    many("splitting and stripping", 4, [](int i) {
        static const char *in[4] = {"  a,b ,c\t", "x,,y\r\n", " \n ", "one two,three"};
        S r = strs(charstr_split(in[i], ',', i)) + strs(charstr_split(in[i], ' ', -1)) + strs(charstr_split_str(in[i], i % 2 ? "," : ",,", -1)) + strs(charstr_split_atoms(in[i])) + str(charstr_strip(in[i]));
        char *arr[4];
        unsigned n = charstr_split_into_array(in[i], ',', arr, 1 + i % 2);
        for (unsigned k = 0; k <= n; k++) r += str(arr[k]);
        return r + str(charstr_strip(nullptr)) + str(charstr_dupstr(nullptr)) + str(charstr_dupsubstr(in[i], nullptr));
    });
    many("comparing and prefixes", 4, [](int i) {
        static const char *a[4] = {"Alpha", "beta", "GAMMA", ""}, *b[4] = {"alphabet", "BETA", "gAmble", "x"};
        auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
        S r;
        for (int k = 0; k < 4; k++) {
            r += num(sg(charstr_case_cmp(a[i], b[k]))) + num(sg(charstr_case_cmp(b[k], a[i]))) + num(sg(charstr_ncase_cmp(a[i], b[k], 3))) + num(sg(charstr_ncase_cmp(b[k], a[i], 9)));
            const char *p[4] = {charstr_skip_prefix(b[k], a[i]), charstr_case_skip_prefix(b[k], a[i]), charstr_case_starts_with(b[k], a[i]), charstr_ncase_starts_with(b[k], a[i])};
            for (const char *x : p) r += num(x ? x - b[k] : -1);
            r += num(charstr_ends_with(b[k], a[i])) + num(charstr_ends_with(b[k], b[k] + 1));
        }
        char buf[16];
        strcpy(buf, b[i]);
        r += charstr_ucase_substr(buf, buf + 1);
        r += charstr_lcase_substr(buf, buf + strlen(buf));
        r += charstr_ucase_str(buf);
        return r + charstr_lcase_str(buf);
    });
    many("formatting", 3, [](int i) {
        static wchar_t bad[] = {0x41, (wchar_t)0x7fffffff, 0};
        S big(i * 700 + 3, 'v' + i);
        return str(charstr_printf("%s|%d|%s", big.c_str(), i, "end")) + str(charstr_printf("%ls", bad)) + str(charstr_printf("%*d", 40 + i, i));
    });
    many("calendar days", 12, [](int i) {
        static const long long t[12] = {951782400, -11644473600LL, 0, -1, 253402300799LL, 4107542399LL, -55855180800LL, 1078012800, -62135596800LL, -24278227200LL, 13574563200LL, -99999999999LL};
        struct tm tm;
        memset(&tm, 0, sizeof tm);
        struct tm *p = epoch_to_utc(t[i], &tm);
        point(p, sizeof *p, false);
        return num(p->tm_year) + num(p->tm_mon) + num(p->tm_mday) + num(p->tm_wday) + num(p->tm_hour) + num(p->tm_min) + num(p->tm_sec) + num(p == &tm);
    });
    many("number conversions", 14, [](int i) {
        static const uint64_t d[14] = {0, 0x8000000000000000, 0xc3e0000000000000, 0x7ff0000000000000, 0x43d0000000000001, 0xc3d0000000000001, 0x4330000000000001, 0x3ff8000000000000, 0xfff8000000000000, 0x43f0000000000000, 0xc059000000000000, 0xc3c0000000000001, 0x4004000000000000, 0x43e8000000000000};
        long long n = 5; unsigned long long u = 6;
        S r = num(binary64_to_integer(d[i], &n)) + num(n);
        r += num(binary64_to_unsigned(d[i], &u)) + num(u);
        for (intptr_t k : {(intptr_t)-1, (intptr_t)0, (intptr_t)i}) r += num(integer_cmp(as_integer(k), as_integer(i))) + num(integer_cmp(as_integer(i), as_integer(k))) + num(unsigned_cmp(as_unsigned(k), as_unsigned(i))) + num(unsigned_cmp(as_unsigned(i), as_unsigned(k)));
        return r;
    });
    return v;
}
struct Inst { int op, variant; };
static std::vector<Oper> &base_ops() { static std::vector<Oper> v = opers(); return v; }
// Every variant of every operation is an instance; pairs of instances are explored.
static std::vector<Oper> &ops()
{
    static std::vector<Oper> v = [] {
        std::vector<Oper> r;
        for (auto &o : base_ops())
            for (int i = 0; i < o.variants; i++) { auto f = o.f; r.push_back({o.name + " #" + std::to_string(i), [f, i](int) { return f(i); }, 1}); }
        return r;
    }();
    return v;
}

static void fresh()
{
    find_tls();
    tls_load(tls_fresh());
    globals_restore();
    pool_reset();
    fs_set_reallocator(bump);
    fs_set_reallocator_counter([](int) {});
}
static S solo(int op, int inst)
{
    active = true;
    S r = ops()[op].f(inst);
    active = false;
    if (!pool_intact()) r += "(and memory behind an allocated block is overwritten)";
    return r;
}

// --------------------------------------------------------------------- nested
static int nest_op, nest_inst;
static S nest_got;
static bool nest_done;
// The interrupting call runs in the same thread, like a signal handler's: it
// shares the thread's variables, but preserves errno.
static void do_nest()
{
    Quiet q;
    int e = errno;
    nest_done = true;
    uint64_t n = nth, t = target;
    nest_got = ops()[nest_op].f(nest_inst);
    nth = n; target = t;
    errno = e;
}
static void nested(int a, int b, uint64_t slice = 0, uint64_t slices = 1)
{
    on_preempt = do_nest;
    co_mode = false;
    target = ~0ull;
    fresh();
    nth = 0;
    S wa = solo(a, 0);
    uint64_t points = nth;
    fresh();
    S wb = solo(b, 1);
    nest_op = b; nest_inst = 1;
    for (uint64_t k = slice; k <= points && !expired(); k += slices) {
        char crumb[96];
        snprintf(crumb, sizeof crumb, "%s preempted at access %llu by %s", ops()[a].name.c_str(), (unsigned long long)k, ops()[b].name.c_str());
        current(crumb, strlen(crumb));
        fresh();
        nth = 0; target = k; nest_done = false; nest_got.clear();
        S ga = solo(a, 0);
        if (!nest_done) do_nest();
        target = ~0ull;
        step();
        MC_CHECK(nest_got == wb, "\"%s\" run in the middle of \"%s\" (before its access %llu) yields %s instead of %s", ops()[b].name.c_str(), ops()[a].name.c_str(), (unsigned long long)k, quote(nest_got).c_str(), quote(wb).c_str());
        MC_CHECK(ga == wa, "\"%s\" preempted by \"%s\" before its access %llu yields %s instead of %s", ops()[a].name.c_str(), ops()[b].name.c_str(), (unsigned long long)k, quote(ga).c_str(), quote(wa).c_str());
        // afterwards the library still works as before
        if (k % 16 == 0 || k == points) {
            S ga2 = solo(a, 0);
            MC_CHECK(ga2 == wa, "after \"%s\" was preempted by \"%s\" before its access %llu, it yields %s instead of %s", ops()[a].name.c_str(), ops()[b].name.c_str(), (unsigned long long)k, quote(ga2).c_str(), quote(wa).c_str());
        }
    }
    outcome(points > 2000 ? 2 : 1);
}
// Preempted before every instruction from one point to the next, for every
// point (the interruptions of one such stretch happen in the same run).
static bool fine_bad;
static S fine_want;
static void do_nest_fine()
{
    do_nest();
    if (!fine_bad && nest_got != fine_want) { fine_bad = true; stepping = 0; }
    else nest_got.clear();
    step();
}
static void nested_fine(int a, int b, uint64_t slice = 0, uint64_t slices = 1)
{
    on_preempt = do_nest;
    co_mode = false;
    target = ~0ull;
    fresh();
    nth = 0;
    S wa = solo(a, 0);
    uint64_t points = nth;
    if (points > (thorough ? 12000 : 2500)) return;
    fresh();
    fine_want = solo(b, 1);
    nest_op = b; nest_inst = 1;
    install_stepper();
    on_preempt = do_nest_fine;
    for (uint64_t k = slice; k < points && !expired(); k += slices) {
        char crumb[96];
        snprintf(crumb, sizeof crumb, "%s preempted at every instruction after access %llu by %s", ops()[a].name.c_str(), (unsigned long long)k, ops()[b].name.c_str());
        current(crumb, strlen(crumb));
        fresh();
        nth = 0; target = k; fine = true; fine_bad = false;
        S ga = solo(a, 0);
        stepping = 0; fine = false; target = ~0ull;
        MC_CHECK(!fine_bad, "\"%s\" run in the middle of \"%s\" (instruction %d after its access %llu) yields %s instead of %s", ops()[b].name.c_str(), ops()[a].name.c_str(), own_steps, (unsigned long long)k, quote(nest_got).c_str(), quote(fine_want).c_str());
        MC_CHECK(ga == wa, "\"%s\" preempted by \"%s\" at every instruction after its access %llu yields %s instead of %s", ops()[a].name.c_str(), ops()[b].name.c_str(), (unsigned long long)k, quote(ga).c_str(), quote(wa).c_str());
    }
    outcome(points > 2000 ? 4 : 3);
}
// Preempted twice, at every pair of points.
static uint64_t second;
static bool nest2_bad;
static S nest_want;
static void do_nest_twice()
{
    do_nest();
    if (nest_got != nest_want) nest2_bad = true;
    target = second;
    second = ~0ull;
}
static void nested_twice(int a, int b)
{
    on_preempt = do_nest_twice;
    co_mode = false;
    target = ~0ull;
    fresh();
    nth = 0;
    S wa = solo(a, 0);
    uint64_t points = nth;
    fresh();
    nest_want = solo(b, 1);
    nest_op = b; nest_inst = 1;
    for (uint64_t k = 0; k < points; k++) {
        char crumb[96];
        snprintf(crumb, sizeof crumb, "%s preempted twice, first at access %llu by %s", ops()[a].name.c_str(), (unsigned long long)k, ops()[b].name.c_str());
        current(crumb, strlen(crumb));
        if (expired()) return;
        for (uint64_t j = k + 1; j < points; j++) {
            fresh();
            nth = 0; target = k; second = j; nest2_bad = false;
            S ga = solo(a, 0);
            target = ~0ull;
            step();
            MC_CHECK(!nest2_bad, "\"%s\" run before the accesses %llu and %llu of \"%s\" yields %s instead of %s", ops()[b].name.c_str(), (unsigned long long)k, (unsigned long long)j, ops()[a].name.c_str(), quote(nest_got).c_str(), quote(nest_want).c_str());
            MC_CHECK(ga == wa, "\"%s\" preempted by \"%s\" before its accesses %llu and %llu yields %s instead of %s", ops()[a].name.c_str(), ops()[b].name.c_str(), (unsigned long long)k, (unsigned long long)j, quote(ga).c_str(), quote(wa).c_str());
        }
    }
}

// ---------------------------------------------------------------- interleaved
enum { STACK = 1 << 20 };
struct Co {
    ucontext_t ctx;
    char *stack = nullptr;
    int op, inst;
    S result;
    bool done;
    int err;
    std::vector<Access> acc;
    std::string tls;
};
static Co co[2];
static ucontext_t main_ctx;
static int cur;
static std::vector<std::pair<uintptr_t, uintptr_t>> conflicts;   // address ranges
static std::vector<uint64_t> plan;      // numbers of visible points (global count) at which to switch
static size_t plan_at;
static uint64_t seen;                   // visible points so far, after which the plan is consulted
static std::vector<uint64_t> open_points;   // points after the last planned switch
static bool is_conflict(uintptr_t a, size_t n)
{
    for (auto &c : conflicts) if (a < c.second && c.first < a + n) return true;
    return false;
}
static void switch_to(int t)
{
    int from = cur;
    co[from].err = errno;
    co[from].tls = tls_save();
    cur = t;
    tls_load(co[t].tls);
    swapcontext(&co[from].ctx, &co[t].ctx);
    tls_load(co[cur].tls);
    errno = co[cur].err;
}
static void co_point(uintptr_t a, size_t n, bool w)
{
    if (!a || !n) return;
    Quiet q;
    Co &c = co[cur];
    uintptr_t sp = (uintptr_t)c.stack;
    if ((a >= sp && a < sp + STACK) || thread_local_address(a)) return;
    c.acc.push_back({a, (uint32_t)n, w});
    if (!is_conflict(a, n)) return;
    uint64_t no = seen++;
    if (plan_at < plan.size()) {
        if (plan[plan_at] == no) {
            plan_at++;
            if (!co[!cur].done) switch_to(!cur);
        }
    } else if (!co[!cur].done) open_points.push_back(no);
}
static void co_main()
{
    Co &c = co[cur];
    active = true;
    S r = ops()[c.op].f(c.inst);
    active = false;
    c.result = r;
    c.done = true;
    errno = 0;
    int me = &c - co;
    // run the other one to its end, then leave
    if (!co[!me].done) { cur = !me; tls_load(co[cur].tls); setcontext(&co[!me].ctx); }
    setcontext(&main_ctx);
}
// One execution: coroutine `first` starts; switches at the planned points.
static void execute(int first)
{
    fresh();
    plan_at = 0; seen = 0; open_points.clear();
    for (int i = 0; i < 2; i++) {
        Co &c = co[i];
        if (!c.stack) c.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&c.ctx);
        c.ctx.uc_stack.ss_sp = c.stack;
        c.ctx.uc_stack.ss_size = STACK;
        c.ctx.uc_link = nullptr;
        makecontext(&c.ctx, co_main, 0);
        c.done = false; c.err = 0; c.tls = tls_fresh(); c.acc.clear(); c.result.clear();
    }
    cur = first;
    co_mode = true;
    swapcontext(&main_ctx, &co[first].ctx);
    co_mode = false;
    active = false;
    step();
}
static bool learn()
{
    // dependent accesses: same address, one of them a write
    size_t before = conflicts.size();
    std::map<uintptr_t, uintptr_t> w[2];   // written ranges by start
    std::vector<Access> acc[2] = {co[0].acc, co[1].acc};
    for (int i = 0; i < 2; i++) {
        std::sort(acc[i].begin(), acc[i].end(), [](const Access &x, const Access &y) { return x.a < y.a || (x.a == y.a && x.n > y.n); });
        std::vector<Access> u;
        for (auto &x : acc[i]) if (u.empty() || u.back().a != x.a || u.back().n != x.n || (x.w && !u.back().w)) u.push_back(x);
        acc[i].swap(u);
    }
    for (auto &x : acc[0]) {
        auto it = std::lower_bound(acc[1].begin(), acc[1].end(), x.a > 4096 ? x.a - 4096 : 0, [](const Access &y, uintptr_t a) { return y.a < a; });
        for (; it != acc[1].end() && it->a < x.a + x.n; ++it)
            if (it->a + it->n > x.a && (it->w || x.w)) {
                uintptr_t lo = std::max(x.a, it->a), hi = std::min(x.a + x.n, it->a + it->n);
                bool have = false;
                for (auto &c : conflicts) if (c.first <= lo && hi <= c.second) have = true;
                if (!have && conflicts.size() < 64) conflicts.push_back({lo, hi});
            }
    }
    return conflicts.size() != before;
}
static void interleaved(int a, int b)
{
    static S want[2];
    co[0].op = a; co[0].inst = 0; co[1].op = b; co[1].inst = 1;
    co_mode = false; target = ~0ull; nth = 0;
    fresh(); want[0] = solo(a, 0);
    fresh(); want[1] = solo(b, 1);
    conflicts.clear();
    const size_t bound = thorough ? 4 : 3;
    uint64_t runs = 0;
    bool again = true;
    auto judge = [&](int first) {
        char crumb[128];
        S pl; for (uint64_t x : plan) pl += " " + std::to_string(x);
        snprintf(crumb, sizeof crumb, "%s | %s first=%d switches:%s", ops()[a].name.c_str(), ops()[b].name.c_str(), first, pl.c_str());
        current(crumb, strlen(crumb));
        MC_CHECK(pool_intact(), "\"%s\" interleaved with \"%s\": memory behind an allocated block is overwritten", ops()[co[0].op].name.c_str(), ops()[co[1].op].name.c_str());
        for (int i = 0; i < 2; i++)
            MC_CHECK(co[i].result == want[i], "\"%s\" interleaved with \"%s\" (%s starts, switching at dependent accesses%s) yields %s instead of %s", ops()[co[i].op].name.c_str(), ops()[co[!i].op].name.c_str(),
                     first ? "the latter" : "the former", pl.c_str(), quote(co[i].result).c_str(), quote(want[i]).c_str());
    };
    for (int round = 0; again && round < 8; round++) {
        again = false;
        for (int first = 0; first < 2 && !again; first++) {
            std::vector<std::vector<uint64_t>> todo = {{}};
            while (!todo.empty() && !again) {
                if (expired()) return;
                plan = todo.back();
                todo.pop_back();
                execute(first);
                runs++;
                judge(first);
                if (learn()) { again = true; break; }
                if (plan.size() < bound && runs < 200000)
                    for (uint64_t p : open_points) { auto q = plan; q.push_back(p); todo.push_back(q); }
            }
        }
    }
    outcome(conflicts.empty() ? 10 : 11);
}

void mc::suites(std::vector<Suite> &out)
{
    // the first `base` instances are the short ones: two of each operation
    size_t n = ops().size(), base = 0;
    for (auto &o : base_ops()) { if (o.name == "avl tree rotations") break; base += o.variants; }
    auto N = [](size_t x) { return std::to_string(x); };
    out.push_back(numbered("interleaved", "pairs of " + N(n) + " instances of operations of all modules: all schedules that differ in the order of dependent memory accesses, with up to " + S(thorough ? "4" : "3") + " preemptions", n * n, [n](uint64_t i) { interleaved(i / n, i % n); }));
    out.push_back(numbered("nested", "pairs of " + N(base) + " instances: the first preempted before every memory access (and function entry and exit) by the complete second", base * base, [base](uint64_t i) { nested(i / base, i % base); }));
    // the larger ones, by the next variant of the same operation and by a short one of the same module
    static std::vector<size_t> next(n);
    { size_t at = 0; for (auto &o : base_ops()) { for (int k = 0; k < o.variants; k++) next[at + k] = at + (k + 1) % o.variants; at += o.variants; } }
    static std::vector<std::pair<size_t, size_t>> same;
    for (size_t i = base; i < n; i++) {
        same.push_back({i, next[i]});
        auto word = [](size_t k) { return ops()[k].name.substr(0, ops()[k].name.find_first_of(" #")); };
        std::vector<size_t> small;
        for (size_t k = 0; k < base; k++) if (word(k) == word(i)) small.push_back(k);
        if (!small.empty()) same.push_back({i, small[i % small.size()]});
    }
    out.push_back(numbered("nested-same", N(n - base) + " larger instances, each preempted before every memory access by another complete instance of the same operation, and by a short one of the same module", same.size() * 8, [](uint64_t i) { auto p = same[i / 8]; nested(p.first, p.second, i % 8, 8); }));
    static std::vector<std::pair<size_t, size_t>> close;
    auto word = [](size_t k) { return ops()[k].name.substr(0, ops()[k].name.find_first_of(" #")); };
    for (size_t i = 0; i < base; i++) for (size_t k = 0; k < base; k++) if (thorough || word(i) == word(k)) close.push_back({i, k});
    for (auto &p : same) close.push_back(p);
    out.push_back(numbered("nested-instructions", N(close.size()) + " pairs of instances" + (thorough ? "" : " of the same module") + " making up to " + N(thorough ? 12000 : 2500) + " accesses, the first preempted before every instruction by the complete second", close.size() * 8, [](uint64_t i) { auto p = close[i / 8]; nested_fine(p.first, p.second, i % 8, 8); }));
    if (thorough) {
        out.push_back(numbered("nested-more", N(n) + " instances, each preempted before every memory access by the complete " + N(base) + " others", n * base, [base](uint64_t i) { nested(i / base, i % base); }));
        out.push_back(numbered("nested-twice", "the short pairs, the first preempted at every pair of its accesses", base * base / 4, [base](uint64_t i) { size_t h = base / 2; nested_twice(i / h * 2, i % h * 2 + 1); }));
    } else
        out.push_back(numbered("nested-twice", "every short operation preempted at every pair of its accesses by another instance of itself", base / 2, [](uint64_t i) { nested_twice(2 * i, 2 * i + 1); }));
}
