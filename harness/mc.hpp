// Exhaustive-exploration engine shared by all harnesses (see DESIGN.md).
//
// The real library is linked in; this file provides
//  * an arena allocator installed as the library's reallocator (every block
//    address-distinct, poisoned outside its bounds and after release),
//  * canonicalisation of the live heap image + the library's own writable
//    globals into a state hash,
//  * a level-synchronous multi-process breadth-first search over operation
//    histories (the master never runs library code; workers are forked),
//  * sharded exhaustive enumeration for input spaces,
//  * crash / assertion / hang detection with replay before report.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {
struct Hasher;

// ---------------------------------------------------------------- reporting
// The property under check ("C01") and tier.
extern std::string prop;
extern bool thorough;

// Report a violation of the current property and leave the process.
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Deciding C09: what is not about allocation only ends the trace.
extern bool only_alloc;
[[noreturn]] void alloc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

// Thrown by harness-level code to abandon a trace that is outside the
// property being decided (e.g. a functional mismatch while deciding cost).
struct Prune {};

// Record the class of the outcome of an execution (for the evidence).
void outcome(uint64_t cls);
// Count one execution of library code whose result was compared.
void step(uint64_t n = 1);

// Note the input about to be processed (for reports of crashes and hangs).
void current(const void *p, size_t n);
// The time for this suite is over (marks it as not exhausted).
bool expired();

std::string hex(const void *p, size_t n);
std::string quote(const std::string &s);

// -------------------------------------------------------------------- arena
// Must be called before using the arena in a trace; drops all blocks.
void arena_reset();
extern uint8_t arena_fill;           // pattern for fresh memory
void *arena_realloc(void *ptr, size_t size);   // the installed reallocator
size_t arena_live();                 // live blocks
size_t arena_calls();                // calls since reset
bool arena_is_live(const void *ptr); // ptr is the start of a live block
size_t arena_block_size(const void *ptr);
size_t arena_last_size();
std::string arena_describe_live();
void arena_hash_sizes(struct Hasher &h);   // sizes of the live blocks, as a multiset
bool arena_contains(const void *p);   // points into the arena
extern bool arena_strict;            // report leaks etc. (C09)
extern size_t arena_limit;           // bytes before "runaway"
// foreign (libc) allocation made by library code while the arena is in use
extern uint64_t foreign_allocs;
extern bool foreign_forbidden;

// Library globals: snapshot at start-up, restored before each trace.
void globals_restore();
bool globals_changed();
extern bool track_globals;

// ----------------------------------------------------------------- hashing
struct Hash { uint64_t a, b; };
struct Hasher {
    uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    inline void add(uint64_t w) {
        a = (a ^ w) * 0xff51afd7ed558ccdull; a ^= a >> 32;
        b = (b + w) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29;
    }
};
// Canonical heap image: blocks numbered in order of discovery from the roots.
struct Canon {
    Hasher h;
    // Translate a word that denotes a harness object (key, value); return
    // false if it is not one.
    std::function<bool(uint64_t w, uint64_t &out)> map;
    std::vector<const void *> roots;
    void root(const void *p) { roots.push_back(p); }
    void add(uint64_t w) { h.add(w); }
    Hash finish();
};

// ------------------------------------------------------------------ suites
struct Enum {
    int shard = 0, nshards = 1;
    // Run one case in this worker (bytes must be re-executable on their own).
    void run(const void *bytes, size_t len);
    bool mine(uint64_t i) const { return (int)(i % nshards) == shard; }
    struct Suite *suite = nullptr;
};

struct System {
    virtual ~System() {}
    virtual void start(int config) = 0;
    virtual void ops(std::vector<uint16_t> &out) = 0;
    virtual void apply(uint16_t op) = 0;   // runs the operation, checks its result
    virtual void check() = 0;              // full oracle on the current state
    virtual void canon(Canon &c) = 0;
    virtual void finish() = 0;             // destroy everything
    virtual std::string opname(uint16_t op) = 0;
    virtual std::string confname(int config) { return std::to_string(config); }
};

struct Suite {
    std::string name;
    std::string bound;                 // what is enumerated, for the evidence
    // input enumeration
    std::function<void(Enum &)> enumerate;
    std::function<void(const uint8_t *, size_t)> exec;
    std::function<std::string(const uint8_t *, size_t)> describe;
    // explicit-state search
    std::function<System *()> make;
    int nconfigs = 1;
    int max_depth = 1 << 30;
    size_t max_states = 4000000;
    double time_share = 1.0;           // of the remaining budget
    double hang = 1.0;                 // factor of the non-termination limit
};
// Registered by the harness for the current property/tier.
void suites(std::vector<Suite> &out);

// small helpers
inline void put16(std::vector<uint8_t> &v, uint16_t x) { v.push_back(x & 255); v.push_back(x >> 8); }
inline uint16_t get16(const uint8_t *p) { return p[0] | p[1] << 8; }
template <class T> void putv(std::vector<uint8_t> &v, T x) { const uint8_t *p = (const uint8_t *)&x; v.insert(v.end(), p, p + sizeof x); }
template <class T> T getv(const uint8_t *&p) { T x; memcpy(&x, p, sizeof x); p += sizeof x; return x; }

// Is the address range [p,p+n) accessible? (guard-page regions for C17)
struct Guard {
    // A region of `pages` accessible pages surrounded by inaccessible ones.
    explicit Guard(size_t pages = 1);
    char *lo, *hi;                     // accessible range
    char *at_end(size_t n) { return hi - n; }
    char *at_start() { return lo; }
};
}
