// C10: the allocation primitives.
#include "mc.hpp"
#include <climits>
#include <unistd.h>
#include <sys/wait.h>
#include "fsalloc.h"
extern "C" int __asan_address_is_poisoned(void const volatile *addr) __attribute__((weak));
using namespace mc;
namespace {
struct Call { int who; void *ptr; size_t size; void *ret; };
std::vector<Call> calls;
std::vector<std::pair<int, int>> counted;
void *rec(int who, void *p, size_t n)
{
    void *r = n > (32u << 20) ? nullptr : arena_realloc(p, n);
    calls.push_back({who, p, n, r});
    return r;
}
void *recA(void *p, size_t n) { return rec(0, p, n); }
void *recB(void *p, size_t n) { return rec(1, p, n); }
void cntA(int c) { counted.push_back({0, c}); }
void cntB(int c) { counted.push_back({1, c}); }
const fs_realloc_t RE[] = {recA, recB};
const fs_reallocator_counter_t CN[] = {cntA, cntB};

enum { ALLOC, REALLOC, FREE, CALLOC, SETA, SETC, SKEW, GETS };
const size_t SZ[] = {0, 1, 8, 24};
const size_t CAL[][2] = {{0, 0}, {0, 5}, {5, 0}, {1, 7}, {3, 8}, {SIZE_MAX, 2}, {(size_t)1 << 32, ((size_t)1 << 32) + 1}, {2, SIZE_MAX / 2 + 2}};
const int SK[] = {-1, 1, 0, INT_MAX, INT_MIN, -3};
struct Sys : System {
    struct Slot { char *p; size_t n; int fill; } slot[2];
    fs_realloc_t re; int who; int cn;
    void start(int) override
    {
        for (auto &s : slot) s = {nullptr, 0, 0};
        who = 0; cn = 0;
        fs_set_reallocator(recA); fs_set_reallocator_counter(cntA);
        MC_CHECK(fs_get_reallocator() == recA && fs_get_reallocator_counter() == cntA, "the hook getters do not return what was installed");
    }
    void ops(std::vector<uint16_t> &o) override
    {
        for (int s = 0; s < 2; s++) {
            for (int z = 0; z < 4; z++) {
                if (!slot[s].p) o.push_back(ALLOC << 12 | s << 8 | z);
                o.push_back(REALLOC << 12 | s << 8 | z);
            }
            o.push_back(FREE << 12 | s << 8);
            if (!slot[s].p) for (int c = 0; c < 8; c++) o.push_back(CALLOC << 12 | s << 8 | c);
        }
        for (int a = 0; a < 2; a++) { o.push_back(SETA << 12 | a); o.push_back(SETC << 12 | a); }
        for (int k = 0; k < 6; k++) o.push_back(SKEW << 12 | k);
        o.push_back(GETS << 12);
    }
    void one(void *p, size_t n, const char *what)
    {
        MC_CHECK(calls.size() == 1, "%s made %zu calls of the allocator", what, calls.size());
        MC_CHECK(calls[0].who == who, "%s called an allocator that is not installed", what);
        MC_CHECK(calls[0].ptr == p && calls[0].size == n, "%s asked the allocator for %zu bytes (expected %zu) or with the wrong block", what, calls[0].size, n);
    }
    void intact(Slot &s)
    {
        for (size_t i = 0; i < s.n; i++) MC_CHECK((uint8_t)s.p[i] == (uint8_t)(s.fill + i), "contents of an allocated block changed");
    }
    void write(Slot &s, int fill) { s.fill = fill; for (size_t i = 0; i < s.n; i++) s.p[i] = fill + i; }
    void apply(uint16_t op) override
    {
        int k = op >> 12, si = op >> 8 & 1, a = op & 255;
        Slot &s = slot[si];
        calls.clear(); counted.clear();
        step();
        switch (k) {
            case ALLOC: {
                void *r = fsalloc(SZ[a]);
                one(nullptr, SZ[a], "allocating");
                MC_CHECK(r == calls[0].ret, "allocating did not return the allocator's block");
                s = {(char *)r, r ? SZ[a] : 0, 0}; write(s, 10);
                break;
            }
            case REALLOC: {
                void *r = fsrealloc(s.p, SZ[a]);
                if (s.p || SZ[a]) one(s.p, SZ[a], "resizing");
                else MC_CHECK(calls.size() <= 1, "resizing made several calls");
                if (!calls.empty()) MC_CHECK(r == calls[0].ret, "resizing did not return the allocator's block");
                size_t keep = std::min(s.n, SZ[a]);
                Slot t = {(char *)r, r ? keep : 0, s.fill}; intact(t);
                s = {(char *)r, r ? SZ[a] : 0, 0}; write(s, 20);
                break;
            }
            case FREE:
                fsfree(s.p);
                if (s.p) one(s.p, 0, "freeing"); else MC_CHECK(calls.empty(), "freeing NULL called the allocator");
                s = {nullptr, 0, 0};
                break;
            case CALLOC: {
                size_t x = CAL[a][0], y = CAL[a][1];
                bool over = y && x > SIZE_MAX / y;
                void *r = fscalloc(x, y);
                if (over) MC_CHECK(!r, "an overflowing zero-allocation yielded a block of %zu bytes", arena_block_size(r));
                else {
                    one(nullptr, x * y, "zero-allocating");
                    MC_CHECK(r == calls[0].ret, "zero-allocating did not return the allocator's block");
                    for (size_t i = 0; r && i < x * y; i++) MC_CHECK(!((char *)r)[i], "zero-allocated memory is not zero at %zu", i);
                }
                s = {(char *)r, r ? x * y : 0, 0}; write(s, 30);
                break;
            }
            case SETA: fs_set_reallocator(RE[a]); who = a; MC_CHECK(calls.empty() && counted.empty(), "installing an allocator called a hook"); break;
            case SETC: fs_set_reallocator_counter(CN[a]); cn = a; MC_CHECK(calls.empty() && counted.empty(), "installing a counter called a hook"); break;
            case SKEW:
                fs_reallocator_skew(SK[a]);
                MC_CHECK(counted.size() == 1 && counted[0].first == cn && counted[0].second == SK[a], "skewing by %d did not call the installed counter exactly once with it", SK[a]);
                MC_CHECK(calls.empty(), "skewing called the allocator");
                break;
            case GETS: break;
        }
        if (k != SKEW) MC_CHECK(counted.empty(), "the counter was called without skewing");
        calls.clear(); counted.clear();
        MC_CHECK(fs_get_reallocator() == RE[who] && fs_get_reallocator_counter() == CN[cn], "the hook getters do not return what was installed");
        MC_CHECK(calls.empty() && counted.empty(), "querying the hooks called them");
        outcome(op);
    }
    void check() override { for (auto &s : slot) intact(s); }
    void canon(Canon &c) override { for (auto &s : slot) { c.add(s.p != nullptr); c.add(s.n); c.add(s.fill); } c.add(who); c.add(cn); }
    void finish() override
    {
        for (auto &s : slot) fsfree(s.p);
        fs_set_reallocator(arena_realloc);
    }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"alloc", "realloc", "free", "calloc", "set-allocator", "set-counter", "skew", "get"};
        return std::string(N[op >> 12]) + " slot " + std::to_string(op >> 8 & 1) + " #" + std::to_string(op & 255);
    }
};

std::vector<size_t> boundary()
{
    std::vector<size_t> v;
    auto add = [&](size_t x) { for (auto y : v) if (y == x) return; v.push_back(x); };
    for (size_t i = 0; i <= (thorough ? 64 : 20); i++) add(i);
    for (int b = 5; b < 64; b++) for (int d = -1; d <= 1; d++) add(((size_t)1 << b) + d);
    for (size_t d = 1; d <= 20; d++) for (int k = -2; k <= 2; k++) add(SIZE_MAX / d + k);
    return v;
}
void calloc_case(const uint8_t *p, size_t)
{
    size_t x = getv<uint64_t>(p), y = getv<uint64_t>(p);
    fs_set_reallocator(recA);
    calls.clear();
    bool over = y && x > SIZE_MAX / y;
    size_t n = x * y;
    // keep what is really allocated small
    void *r = fscalloc(x, y);
    if (over) MC_CHECK(!r, "fscalloc(%zu, %zu) overflows but yields a block of %zu bytes", x, y, arena_block_size(r));
    else {
        MC_CHECK(calls.size() == 1 && !calls[0].ptr && calls[0].size == n, "fscalloc(%zu, %zu) asked for %zu bytes in %zu call(s)", x, y, calls.empty() ? 0 : calls[0].size, calls.size());
        MC_CHECK(r == calls[0].ret, "fscalloc did not return the allocator's block");
        if (r) for (size_t i = 0; i < n; i++) if (((char *)r)[i]) fail("fscalloc(%zu, %zu): byte %zu is not zero", x, y, i);
    }
    fsfree(r);
    step();
    outcome(over * 2 + (r != nullptr));
    fs_set_reallocator(arena_realloc);
}
fs_realloc_t default_allocator;
// default allocator: contents survive resizing, zero frees, overflow refused
void default_case(const uint8_t *p, size_t)
{
    size_t a = getv<uint32_t>(p), b = getv<uint32_t>(p), c = getv<uint32_t>(p);
    fs_set_reallocator(default_allocator);
    char *q = (char *)fsalloc(a);
    if (a) MC_CHECK(q, "the default allocator yields nothing for %zu bytes", a);
    for (size_t i = 0; i < a; i++) q[i] = 3 * i + 1;
    size_t n = a;
    for (size_t z : {b, c}) {
        char *old = q;
        q = (char *)fsrealloc(q, z);
        if (z == 0) {
            if (old) MC_CHECK(!q, "resizing to zero yields a block");
            if (old && n && __asan_address_is_poisoned) MC_CHECK(__asan_address_is_poisoned(old), "resizing to zero did not free the block");
        } else MC_CHECK(q, "resizing to %zu failed", z);
        size_t keep = std::min(n, z);
        for (size_t i = 0; i < keep; i++) MC_CHECK((uint8_t)q[i] == (uint8_t)(3 * i + 1), "byte %zu lost when resizing from %zu to %zu", i, n, z);
        for (size_t i = 0; i < z; i++) q[i] = 3 * i + 1;
        n = z;
    }
    fsfree(q);
    if (q && n && __asan_address_is_poisoned) MC_CHECK(__asan_address_is_poisoned(q), "freeing did not free the block");
    char *z = (char *)fscalloc(a, c);
    for (size_t i = 0; i < a * c; i++) MC_CHECK(!z[i], "zero-allocated memory is not zero");
    fsfree(z);
    fs_reallocator_skew(-1);        // the default counter ignores it
    step(4);
    outcome((a != 0) | (b != 0) << 1 | (c != 0) << 2);
    fs_set_reallocator(arena_realloc);
}
void refuse_case(const uint8_t *p, size_t)
{
    size_t x = getv<uint64_t>(p), y = getv<uint64_t>(p);
    pid_t pid = fork();
    if (pid == 0) {
        fs_set_reallocator(default_allocator);
        freopen("/dev/null", "w", stderr);
        void *r = fscalloc(x, y);
        _exit(r ? 42 : 0);
    }
    int st = 0; waitpid(pid, &st, 0);
    MC_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 42), "fscalloc(%zu, %zu) with the default allocator yields a block", x, y);
    step(); outcome(st);
}
// memory that cannot be had ends the process: no caller is given nothing
void exhausted_case(const uint8_t *p, size_t)
{
    size_t n = getv<uint64_t>(p);
    int kind = p[0];
    pid_t pid = fork();
    if (pid == 0) {
        fs_set_reallocator(default_allocator);
        freopen("/dev/null", "w", stderr);
        void *r;
        if (kind == 0) r = fsalloc(n);
        else if (kind == 1) r = fsrealloc(nullptr, n);
        else if (kind == 2) r = fsrealloc(fsalloc(10), n);
        else if (kind == 3) r = fscalloc(1, n);
        else r = fscalloc(n, 1);
        _exit(r ? 42 : 43);
    }
    int st = 0; waitpid(pid, &st, 0);
    MC_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 42), "the default allocator yields a block of %zu bytes", n);
    MC_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 43), "the default allocator, refused %zu bytes, gives its caller a null pointer", n);
    step(); outcome(st);
}
}
namespace mc {
void suites(std::vector<Suite> &out)
{
    {   // the library's own default, captured before the harness replaced it: ask a fresh copy of the globals
        extern fs_realloc_t initial_reallocator;
        default_allocator = initial_reallocator;
    }
    Suite s;
    s.name = "alloc-histories";
    s.bound = "all histories of allocate, resize, free, zero-allocate (incl. overflowing products), hook replacement, skewing over two blocks and two allocators/counters";
    s.make = [] { return new Sys; };
    out.push_back(s);
    Suite d;
    d.name = "alloc-products";
    d.bound = "zero-allocation for every pair of boundary factors (all small numbers, neighbourhoods of all powers of two and of SIZE_MAX/1..20)";
    d.enumerate = [](Enum &e) {
        uint64_t i = 0;
        arena_limit = 64u << 20;
        auto b = boundary();
        for (size_t x : b) for (size_t y : b) {
            bool over = y && x > SIZE_MAX / y;
            if (!over && x * y > (thorough ? 1u << 22 : 1u << 16) && x * y <= (32u << 20)) continue;
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, (uint64_t)x); putv(v, (uint64_t)y); e.run(v.data(), v.size()); }
        }
    };
    d.exec = calloc_case;
    d.describe = [](const uint8_t *p, size_t) { auto x = getv<uint64_t>(p), y = getv<uint64_t>(p); return "fscalloc(" + std::to_string(x) + ", " + std::to_string(y) + ")"; };
    out.push_back(d);
    d.name = "alloc-default";
    d.bound = "default allocator: allocate, resize twice, free, zero-allocate, for every triple of sizes";
    d.enumerate = [](Enum &e) {
        uint64_t i = 0;
        std::vector<uint32_t> z; for (uint32_t k = 0; k <= 18; k++) z.push_back(k);
        for (uint32_t k : {24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 500, 4095, 4096, 4097}) z.push_back(k);
        for (auto a : z) for (auto b : z) for (auto c : z)
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, a); putv(v, b); putv(v, c); e.run(v.data(), v.size()); }
    };
    d.exec = default_case;
    d.describe = [](const uint8_t *p, size_t) { auto a = getv<uint32_t>(p), b = getv<uint32_t>(p), c = getv<uint32_t>(p); return "sizes " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c); };
    out.push_back(d);
    d.name = "alloc-default-refusal";
    d.bound = "overflowing products with the default allocator";
    d.enumerate = [](Enum &e) {
        uint64_t i = 0;
        uint64_t P[][2] = {{SIZE_MAX, 2}, {2, SIZE_MAX}, {1ull << 32, 1ull << 32}, {(1ull << 32) + 1, 1ull << 32}, {(1ull << 63) + 1, 2}, {3, SIZE_MAX / 3 + 1}, {SIZE_MAX, SIZE_MAX}, {1ull << 33, 1ull << 33}};
        for (auto &q : P) if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, q[0]); putv(v, q[1]); e.run(v.data(), v.size()); }
    };
    d.exec = refuse_case;
    d.describe = [](const uint8_t *p, size_t) { auto x = getv<uint64_t>(p), y = getv<uint64_t>(p); return "fscalloc(" + std::to_string(x) + ", " + std::to_string(y) + ")"; };
    out.push_back(d);
    d.name = "alloc-default-exhausted";
    d.bound = "five ways of asking the default allocator for 10 sizes it cannot provide";
    d.enumerate = [](Enum &e) {
        uint64_t i = 0;
        for (uint64_t n : {(uint64_t)SIZE_MAX, (uint64_t)SIZE_MAX - 1, (uint64_t)SIZE_MAX - 15, (uint64_t)SIZE_MAX - 4096, (uint64_t)SIZE_MAX / 2, (uint64_t)SIZE_MAX / 2 + 1, (uint64_t)1 << 63, (uint64_t)1 << 62, (uint64_t)1 << 60, (uint64_t)1 << 50})
            for (int k = 0; k < 5; k++) if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); v.push_back(k); e.run(v.data(), v.size()); }
    };
    d.exec = exhausted_case;
    d.describe = [](const uint8_t *p, size_t) { auto x = getv<uint64_t>(p); return std::to_string(x) + " bytes, way " + std::to_string(p[0]); };
    out.push_back(d);
}
}
