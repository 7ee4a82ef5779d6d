// C08 (and the integer set part of C09).
#include "mc.hpp"
#include <climits>
#include "intset.h"
#include "fsalloc.h"
using namespace mc;
namespace {
struct Model {
    std::vector<char> b;
    int next(uint64_t from, bool hit) { for (uint64_t i = from; i < b.size(); i++) if ((b[i] != 0) == hit) return i; return -1; }
};
void check_at(intset_t *s, Model &m, unsigned e)
{
    MC_CHECK(intset_has(s, e) == (e < m.b.size() && m.b[e]), "membership of %u in a set of size %zu is wrong", e, m.b.size());
    int h = intset_find_next_hit(s, e), w = m.next(e, true);
    MC_CHECK(h == w, "next contained integer from %u in a set of size %zu is %d, expected %d", e, m.b.size(), h, w);
    int x = intset_find_next_miss(s, e), y = m.next(e, false);
    MC_CHECK(x == y, "next missing integer from %u in a set of size %zu is %d, expected %d", e, m.b.size(), x, y);
    step(3);
}
const unsigned FAR[] = {UINT_MAX, UINT_MAX - 1, (unsigned)INT_MAX, (unsigned)INT_MAX + 1, UINT_MAX - 63, UINT_MAX - 64, 1u << 31, 1u << 30, 65536};
void check_all(intset_t *s, Model &m)
{
    MC_CHECK(intset_empty(s) == (m.next(0, true) < 0), "emptiness is wrong");
    for (size_t e = 0; e < m.b.size() + 130; e++) check_at(s, m, e);
    for (unsigned e : FAR) if (e >= m.b.size()) check_at(s, m, e);
}
// Histories over chosen elements of sets of chosen sizes.
struct Conf { size_t size; std::vector<unsigned> el; };
std::vector<Conf> confs;
struct Sys : System {
    intset_t *s; Model m; Conf *c;
    void start(int config) override { c = &confs[config]; m.b.assign(c->size, 0); s = make_intset(c->size); MC_CHECK(s, "no set created"); }
    void ops(std::vector<uint16_t> &o) override
    {
        for (size_t i = 0; i < c->el.size(); i++) { o.push_back(i); o.push_back(0x100 | i); }
        o.push_back(0x200);
    }
    void apply(uint16_t op) override
    {
        unsigned e = (op & 0xff) < c->el.size() ? c->el[op & 0xff] : 0;
        switch (op >> 8) {
            case 0: intset_add(s, e); if (e < m.b.size()) m.b[e] = 1; break;
            case 1: intset_remove(s, e); if (e < m.b.size()) m.b[e] = 0; break;
            default: intset_fill(s); for (auto &x : m.b) x = 1;
        }
        step();
    }
    void check() override { check_all(s, m); outcome(m.next(0, true) + 1000 * m.next(0, false)); }
    void canon(Canon &cn) override { cn.root(s); }
    void finish() override { destroy_intset(s); }
    std::string opname(uint16_t op) override
    {
        if (op >> 8 == 2) return "fill";
        return std::string(op >> 8 ? "remove " : "add ") + std::to_string(c ? c->el[op & 255] : op & 255);
    }
    std::string confname(int k) override { c = &confs[k]; return "size " + std::to_string(confs[k].size); }
};
// One element (or two) added to an empty set / removed from a full one, for
// every size and every element.
void pair_case(const uint8_t *p, size_t)
{
    size_t n = getv<uint32_t>(p); unsigned a = getv<uint32_t>(p), b = getv<uint32_t>(p); int mode = *p;
    intset_t *s = make_intset(n); Model m; m.b.assign(n, 0);
    if (mode & 1) { intset_fill(s); for (auto &x : m.b) x = 1; }
    for (unsigned e : {a, b}) {
        if (mode & 1) { intset_remove(s, e); if (e < n) m.b[e] = 0; }
        else { intset_add(s, e); if (e < n) m.b[e] = 1; }
    }
    auto quick = [&] {
        MC_CHECK(intset_empty(s) == (m.next(0, true) < 0), "emptiness is wrong");
        for (unsigned e : {a, b, 0u}) for (int d = -1; d <= 1; d++) { unsigned x = e + d; check_at(s, m, x); }
        check_at(s, m, n); check_at(s, m, n + 1); if (n) check_at(s, m, n - 1);
    };
    if (mode & 2) check_all(s, m); else quick();
    // undo one of them
    if (mode & 1) { intset_add(s, a); if (a < n) m.b[a] = 1; } else { intset_remove(s, a); if (a < n) m.b[a] = 0; }
    quick();
    outcome(m.next(0, true) + 1000 * m.next(0, false));
    destroy_intset(s);
    if (arena_strict && arena_live()) alloc_fail("%zu block(s) still allocated after everything was destroyed (%s)", arena_live(), arena_describe_live().c_str());
}
// Large sets: a single marked element and its surroundings.
void large_case(const uint8_t *p, size_t)
{
    size_t n = getv<uint64_t>(p); unsigned e = getv<uint32_t>(p); bool full = *p;
    arena_limit = (size_t)2 << 30;
    if (n > INT_MAX) {
        // search results are not representable: membership only
        intset_t *s = make_intset(n);
        auto has = [&](bool in) {
            MC_CHECK(intset_has(s, e) == (e < n && in), "size %zu: membership of %u wrong", n, e);
            for (unsigned x : {e - 1, e + 1, e - 64, e + 64, e ^ 1u << 31, e ^ 1u << 30, 0u, UINT_MAX, (unsigned)INT_MAX}) if (x != e) MC_CHECK(intset_has(s, x) == (x < n && full), "size %zu: membership of %u wrong after an operation on %u", n, x, e);
        };
        if (full) { intset_fill(s); has(true); intset_remove(s, e); has(false); intset_add(s, e); has(true); }
        else { has(false); intset_add(s, e); has(true); intset_remove(s, e); has(false); }
        step(34); outcome(full);
        destroy_intset(s);
        return;
    }
    intset_t *s = make_intset(n);
    if (full) { intset_fill(s); intset_remove(s, e); } else intset_add(s, e);
    auto find = [&](unsigned from) { return full ? intset_find_next_miss(s, from) : intset_find_next_hit(s, from); };
    for (unsigned from : {0u, 1u, e, e ? e - 1 : 0u, e > 64 ? e - 64 : 0u, e > 65 ? e - 65 : 0u, e / 2})
        MC_CHECK(find(from) == (e < n && from <= e ? (int)e : -1), "size %zu: search from %u yields %d, expected %u", n, from, find(from), e);
    MC_CHECK(find(e + 1) == -1, "size %zu: search after the only element %u yields %d", n, e, find(e + 1));
    MC_CHECK(intset_has(s, e) == (e < n && !full), "size %zu: membership of %u wrong", n, e);
    if (n) MC_CHECK(intset_has(s, n - 1) == (n - 1 == e ? !full : full), "size %zu: membership of the last element wrong", n);
    MC_CHECK(!intset_has(s, n), "size %zu: an out-of-range integer is contained", n);
    intset_add(s, n); intset_remove(s, n);
    int o = full ? intset_find_next_hit(s, e) : intset_find_next_miss(s, e);
    MC_CHECK(o == ((size_t)e + 1 < n ? (int)e + 1 : -1), "size %zu: opposite search from %u yields %d", n, e, o);
    step(12);
    outcome(full * 2 + (e < n));
    destroy_intset(s);
}
}
void intset_suites(std::vector<Suite> &out, bool alloc)
{
    confs.clear();
    // every subset of a small set: full saturation
    int full = alloc ? 5 : thorough ? 12 : 10;
    for (int n = 0; n <= full; n++) { Conf c; c.size = n; for (int i = 0; i <= n; i++) c.el.push_back(i); c.el.push_back(UINT_MAX); confs.push_back(c); }
    // boundary elements of larger sets
    for (size_t n : {31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 256, 257}) {
        if (alloc && n > 66) break;
        Conf c; c.size = n;
        auto add = [&](unsigned e) { for (auto x : c.el) if (x == e) return; if (c.el.size() < (alloc ? 4u : thorough ? 10u : 8u)) c.el.push_back(e); };
        add(n - 1); add(n); add(0); add(63); add(64); add(31); add(32); add(n - 2); add(128); add(127); add(n / 2);
        confs.push_back(c);
    }
    Suite s;
    s.name = "intset-histories";
    s.bound = "all histories: every subset of sets of size 0.." + std::to_string(full) + ", and every subset of the word-boundary elements (with fill) of 16 sizes up to 257; all queries from every starting point in every state";
    s.nconfigs = confs.size();
    s.make = [] { return new Sys; };
    out.push_back(s);
    Suite d;
    int top = alloc ? 70 : thorough ? 330 : 260;
    d.name = "intset-sizes";
    d.bound = "every size up to " + std::to_string(top) + ", every element and every pair with a word-boundary element, added to an empty or removed from a full set";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (uint32_t n = 0; n <= (uint32_t)top; n++)
            for (uint32_t a = 0; a <= n + 1; a++)
                for (int mode = 0; mode < 2; mode++) {
                    std::vector<uint32_t> bs = {a, 0, 63, 64, 65, 127, 128, n ? n - 1 : 0, UINT_MAX};
                    for (size_t k = 0; k < bs.size(); k++)
                        if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); putv(v, a); putv(v, bs[k]); v.push_back(mode | (k == 0 && n % 8 < 3 ? 2 : 0)); e.run(v.data(), v.size()); }
                }
    };
    d.exec = pair_case;
    d.describe = [](const uint8_t *p, size_t) { auto n = getv<uint32_t>(p), a = getv<uint32_t>(p), b = getv<uint32_t>(p); return "size " + std::to_string(n) + (*p & 1 ? ", filled, removing " : ", adding ") + std::to_string(a) + " and " + std::to_string(b); };
    out.push_back(d);
    if (alloc) return;
    d.name = "intset-large";
    d.bound = "sizes around powers of two up to INT_MAX, one element at either end, in the middle or out of range; membership alone also in sets of up to 2^32 integers";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        std::vector<uint64_t> ns;
        for (int b = 9; b <= (thorough ? 30 : 26); b++) for (int k = -1; k <= 1; k++) ns.push_back((1ull << b) + k);
        ns.push_back(INT_MAX); ns.push_back(INT_MAX - 63);
        for (uint64_t n : {1ull << 31, (1ull << 31) + 1, (1ull << 32) - 64, 1ull << 32})
            for (uint32_t el : {0u, 1u << 31, (1u << 31) - 1, UINT_MAX, (unsigned)n - 1, (1u << 31) + (1u << 30) + 5}) for (int f = 0; f < 2; f++)
                if (thorough || (n > (1ull << 31) && n != (1ull << 32) - 64)) if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); putv(v, el); v.push_back(f); e.run(v.data(), v.size()); }
        for (auto n : ns) for (uint32_t el : {0u, 1u, 64u, (unsigned)(n / 2), (unsigned)n - 1, (unsigned)n - 2, (unsigned)n, (unsigned)n - 64, (unsigned)n - 65}) for (int f = 0; f < 2; f++) {
            if (n > (1u << 27) && (el < n - 2 || el == n)) continue;
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); putv(v, el); v.push_back(f); e.run(v.data(), v.size()); }
        }
    };
    d.exec = large_case;
    d.describe = [](const uint8_t *p, size_t) { auto n = getv<uint64_t>(p); auto e = getv<uint32_t>(p); return "size " + std::to_string(n) + ", element " + std::to_string(e) + (*p ? " removed from the full set" : " added"); };
    out.push_back(d);
}
#ifndef MC_COMBINED
namespace mc { void suites(std::vector<Suite> &out) { intset_suites(out, false); } }
#endif
