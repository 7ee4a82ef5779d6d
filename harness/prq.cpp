// C05, C06 (and the priority queue part of C09).
#include "mc.hpp"
#include <algorithm>
#include <climits>
#include <map>
#include "priority_queue.h"
#include "integer.h"
#include "fsalloc.h"
using namespace mc;
namespace {
// C05 decides order and conservation, C06 the locators; a mismatch that
// belongs to the other property abandons the trace.
bool deciding_loc;
#define ORD_CHECK(cond, ...) do { if (!(cond)) { if (deciding_loc) throw Prune(); fail(__VA_ARGS__); } } while (0)
#define LOC_CHECK(cond, ...) do { if (!(cond)) { if (!deciding_loc) throw Prune(); fail(__VA_ARGS__); } } while (0)

struct Elem { int prio; int in; void *loc; };
const int POOL = 1024;
Elem pool[POOL];
char context;
int style;
bool strict_ctx;
bool integers;
Elem *elem_of(const void *p)
{
    if (integers) { intptr_t i = (intptr_t)p; if (i < -1 || i > 14) ORD_CHECK(false, "a callback received a value that is not an element"); return &pool[i + 1]; }
    return (Elem *)p;
}
int rcmp(const void *a, const void *b)
{
    int x = elem_of(a)->prio, y = elem_of(b)->prio;
    switch (style) {
        case 0: return x < y ? -1 : x > y;
        case 1: return x == y ? 0 : x < y ? -65536 : 65536 << (x - y) % 8;
        case 2: return x < y ? INT_MIN : x > y ? INT_MAX : 0;
        default: return x < y ? -7 : x > y ? 1 : 0;
    }
}
int cmp1(const void *a, const void *b) { return rcmp(a, b); }
int cmp2(const void *a, const void *b, void *obj) { ORD_CHECK(obj == &context, "the comparator did not receive the context argument"); return rcmp(a, b); }
void reloc1(const void *e, void *loc) { elem_of(e)->loc = loc; }
void reloc2(const void *e, void *loc, void *obj) { if (deciding_loc && obj != &context) fail("the relocation callback did not receive the context argument"); elem_of(e)->loc = loc; }

priorq_t *make(int cfg, bool reloc)
{
    style = cfg % 4;
    if (cfg & 4) return make_priority_queue(cmp1, reloc ? reloc1 : nullptr);
    return make_priority_queue_2(cmp2, reloc ? reloc2 : nullptr, &context);
}

// Empties the queue, checking order and contents. `m` counts each element.
void drain(priorq_t *q, std::map<const void *, int> m, size_t n)
{
    bool first = true; int last = 0;
    while (n) {
        ORD_CHECK(priorq_size(q) == n && !priorq_empty(q), "size is %zu, expected %zu", priorq_size(q), n);
        const void *pk = priorq_peek(q);
        int best = INT_MAX;
        for (auto &p : m) if (p.second) best = std::min(best, elem_of(p.first)->prio);
        ORD_CHECK(m.count(pk) && m[pk], "peek returned something that is not contained");
        ORD_CHECK(elem_of(pk)->prio == best, "peek returned an element of priority %d, the least is %d (%zu contained)", elem_of(pk)->prio, best, n);
        const void *e = priorq_dequeue(q);
        ORD_CHECK(m.count(e) && m[e], "dequeue returned something that is not contained");
        ORD_CHECK(elem_of(e)->prio == best, "dequeue returned an element of priority %d, the least is %d (%zu contained)", elem_of(e)->prio, best, n);
        m[e]--; n--;
        last = best; first = false;
        step(2);
    }
    (void)first; (void)last;
    ORD_CHECK(priorq_size(q) == 0 && priorq_empty(q), "size is %zu after everything was dequeued", priorq_size(q));
    ORD_CHECK(!priorq_peek(q) && !priorq_dequeue(q) && !priorq_pop(q), "an empty queue yields an element");
}

enum { ENQ, TIE, DEQ, POP, REM, PEEK };
// Elements are fresh objects; the state is which rank lies at which locator.
struct RSys : System {
    int maxn; bool ties, image, noreloc;
    RSys(int n, bool t, bool image, bool noreloc = false) : maxn(n), ties(t), image(image), noreloc(noreloc) {}
    priorq_t *q; int next;
    std::vector<Elem *> m;               // sorted by (prio, age)
    void start(int cfg) override { integers = false; next = 0; m.clear(); q = make(cfg, !noreloc); ORD_CHECK(q, "no queue created"); }
    std::vector<Elem *> by_prio()
    {
        // within a tie, order by locator so that the indices mean the same in
        // every history that reaches this state
        auto v = m;
        if (!noreloc) std::stable_sort(v.begin(), v.end(), [](Elem *a, Elem *b) { return a->prio != b->prio ? a->prio < b->prio : a->loc < b->loc; });
        return v;
    }
    int groups() { int g = 0; for (size_t i = 0; i < m.size(); i++) if (i == 0 || m[i]->prio != m[i - 1]->prio) g++; return g; }
    void renumber()
    {
        std::stable_sort(m.begin(), m.end(), [](Elem *a, Elem *b) { return a->prio < b->prio; });
        int p = 0, last = INT_MIN;
        for (auto e : m) { if (e->prio != last) { last = e->prio; p += 2; } e->prio = p; }
    }
    static uint16_t code(int k, int i) { return k << 12 | i; }
    void ops(std::vector<uint16_t> &o) override
    {
        if ((int)m.size() < maxn) {
            int g = groups();
            for (int i = 0; i <= g; i++) o.push_back(code(ENQ, i));
            if (ties) for (int i = 0; i < g; i++) o.push_back(code(TIE, i));
        }
        o.push_back(code(DEQ, 0)); o.push_back(code(POP, 0));
        if (image) o.push_back(code(PEEK, 0));
        if (!noreloc) for (size_t i = 0; i < m.size(); i++) o.push_back(code(REM, i));
    }
    void left(const void *e, const char *what)
    {
        auto it = std::find(m.begin(), m.end(), e);
        ORD_CHECK(it != m.end(), "%s returned something that is not contained", what);
        m.erase(it);
        renumber();
    }
    void apply(uint16_t op) override
    {
        int k = op >> 12, i = op & 4095;
        step();
        switch (k) {
            case ENQ: case TIE: {
                if (next >= POOL) throw Prune();
                Elem *e = &pool[next++];
                e->prio = k == ENQ ? 2 * i + 1 : 2 * i + 2;
                e->loc = (void *)-1;
                priorq_enqueue(q, e);
                m.push_back(e);
                renumber();
                break;
            }
            case DEQ: case POP: {
                const void *e = k == DEQ ? priorq_dequeue(q) : priorq_pop(q);
                if (m.empty()) { ORD_CHECK(!e, "an empty queue yields an element"); break; }
                if (k == DEQ) {
                    ORD_CHECK(std::find(m.begin(), m.end(), e) != m.end(), "dequeue returned something that is not contained");
                    ORD_CHECK(((Elem *)e)->prio == m[0]->prio, "dequeue did not return a least element");
                }
                left(e, k == DEQ ? "dequeue" : "pop");
                break;
            }
            case REM: {
                Elem *e = by_prio()[i];
                const void *r = priorq_remove(q, e->loc);
                LOC_CHECK(r == e, "removing by the most recent locator of an element of rank %d of %zu returned %s", i, m.size(), r ? "another element" : "nothing");
                left(e, "remove");
                break;
            }
            case PEEK: {
                const void *e = priorq_peek(q);
                if (m.empty()) ORD_CHECK(!e, "an empty queue yields an element");
                else ORD_CHECK(std::find(m.begin(), m.end(), e) != m.end() && ((Elem *)e)->prio == m[0]->prio, "peek is not a least element");
                break;
            }
        }
        outcome(k * 64 + m.size());
    }
    void check() override
    {
        if (deciding_loc) {
            // every other removal by locator, the rest must still be in order
            auto v = by_prio();
            size_t n = v.size();
            uint32_t pat = n ? (uint32_t)(v[0]->loc == nullptr) : 0;
            for (size_t j = 0; j < n; j++) {
                size_t i = pat ? n - 1 - j : j;
                if (j % 3 == 2) continue;
                const void *r = priorq_remove(q, v[i]->loc);
                LOC_CHECK(r == v[i], "after the history, removing by the most recent locator of an element of rank %zu of %zu returned %s", i, n, r ? "another element" : "nothing");
                m.erase(std::find(m.begin(), m.end(), v[i]));
                step();
            }
            // no other element left or lost its place
            size_t left = m.size();
            LOC_CHECK(priorq_size(q) == left, "after removals by locator %zu elements remain instead of %zu", priorq_size(q), left);
            while (!m.empty()) {
                Elem *e = (Elem *)priorq_dequeue(q);
                auto it = std::find(m.begin(), m.end(), e);
                LOC_CHECK(it != m.end(), "after removals by locator an element is missing");
                renumber_min(e);
                m.erase(it);
            }
            return;
        }
        std::map<const void *, int> mm;
        for (auto e : m) mm[e]++;
        drain(q, mm, m.size());
        m.clear();
    }
    void renumber_min(Elem *e)
    {
        for (auto x : m) LOC_CHECK(x->prio >= e->prio, "after removals by locator the elements come out in the wrong order");
    }
    void canon(Canon &c) override
    {
        if (image) {
            c.root(q);
            std::vector<int> rk(next, -1);
            for (size_t i = 0; i < m.size(); i++) rk[m[i] - pool] = m[i]->prio;
            int n = next;
            c.map = [rk, n](uint64_t w, uint64_t &out) {
                if (w >= (uint64_t)pool && w < (uint64_t)(pool + n)) { out = 0x10000 + rk[(w - (uint64_t)pool) / sizeof(Elem)]; return true; }
                return false;
            };
            if (noreloc) return;
        }
        // who is where, by locator
        auto v = m;
        std::stable_sort(v.begin(), v.end(), [](Elem *a, Elem *b) { return a->loc < b->loc; });
        for (auto e : v) {
            c.add(e->prio);
            if ((uint64_t)e->loc < 1u << 20) c.add((uint64_t)e->loc);
        }
        c.add(m.size());
        if (!image) arena_hash_sizes(c.h);
    }
    void finish() override { destroy_priority_queue(q); }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"enqueue@gap", "enqueue-tie-with-group", "dequeue", "pop", "remove-by-locator#", "peek"};
        return N[op >> 12] + std::to_string(op & 4095);
    }
    std::string confname(int c) override { return std::string(c & 4 ? "plain" : "context") + " callbacks, comparator style " + std::to_string(c % 4); }
};

// A fixed set of elements, each of which may be enqueued repeatedly.
struct FSys : System {
    int E, maxn; bool ints, reloc, unique;
    FSys(int e, int n, bool ints, bool reloc, bool unique) : E(e), maxn(n), ints(ints), reloc(reloc), unique(unique) {}
    priorq_t *q; std::map<const void *, int> m; size_t n;
    std::map<const void *, bool> mixed;   // contained several times since it was last absent
    const void *el(int i) { return ints ? (const void *)as_integer(i - 1) : &pool[i]; }
    void start(int cfg) override
    {
        integers = ints; m.clear(); mixed.clear(); n = 0;
        for (int i = 0; i < 16; i++) { pool[i].prio = i / 2 * 3 - 2; pool[i].loc = (void *)-1; }
        q = make(cfg, reloc);
    }
    void ops(std::vector<uint16_t> &o) override
    {
        for (int i = 0; i < E; i++) {
            if ((int)n < maxn && !(unique && m[el(i)])) o.push_back(ENQ << 12 | i);
            if (reloc && m[el(i)] == 1 && !mixed[el(i)]) o.push_back(REM << 12 | i);
        }
        o.push_back(DEQ << 12); o.push_back(POP << 12); o.push_back(PEEK << 12);
    }
    int least() { int b = INT_MAX; for (auto &p : m) if (p.second) b = std::min(b, elem_of(p.first)->prio); return b; }
    void apply(uint16_t op) override
    {
        int k = op >> 12, i = op & 4095;
        step();
        switch (k) {
            case ENQ: priorq_enqueue(q, el(i)); m[el(i)]++; n++; mixed[el(i)] = m[el(i)] > 1 || mixed[el(i)]; break;
            case REM: {
                const void *r = priorq_remove(q, elem_of(el(i))->loc);
                LOC_CHECK(r == el(i), "removing by the most recent locator returned another element");
                m[el(i)]--; n--;
                break;
            }
            default: {
                const void *r = k == DEQ ? priorq_dequeue(q) : k == POP ? priorq_pop(q) : priorq_peek(q);
                if (!n) { ORD_CHECK(!r, "an empty queue yields an element"); break; }
                ORD_CHECK(m.count(r) && m[r], "%s returned something that is not contained", k == DEQ ? "dequeue" : k == POP ? "pop" : "peek");
                if (k != POP) ORD_CHECK(elem_of(r)->prio == least(), "not a least element");
                if (k != PEEK) { if (!--m[r]) mixed[r] = false; n--; }
            }
        }
        outcome(k * 64 + n);
    }
    void check() override
    {
        if (deciding_loc) {
            for (int i = 0; i < E; i++) {
                int j = (i * 3 + 1) % E;
                if (E % 3 == 0) j = i;
                if (m[el(j)] != 1 || mixed[el(j)]) continue;
                const void *r = priorq_remove(q, elem_of(el(j))->loc);
                LOC_CHECK(r == el(j), "removing by the most recent locator returned another element");
                m[el(j)] = 0; n--;
            }
            LOC_CHECK(priorq_size(q) == n, "removal by locator lost elements");
            int last = INT_MIN;
            while (n) {
                const void *r = priorq_dequeue(q);
                LOC_CHECK(r != nullptr || ints, "removal by locator lost elements");
                LOC_CHECK(m.count(r) && m[r], "after removals by locator an element not contained comes out");
                LOC_CHECK(elem_of(r)->prio >= last, "after removals by locator the elements come out in the wrong order");
                last = elem_of(r)->prio; m[r]--; n--;
            }
            return;
        }
        drain(q, m, n); m.clear(); n = 0;
    }
    void canon(Canon &c) override
    {
        c.root(q);
        if (reloc) for (int i = 0; i < E; i++) c.add(m[el(i)] ? (uint64_t)elem_of(el(i))->loc : 0);
        for (int i = 0; i < E; i++) { c.add(m[el(i)]); c.add(mixed[el(i)]); }
    }
    void finish() override { destroy_priority_queue(q); }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"enqueue ", "", "dequeue", "pop", "remove-by-locator ", "peek"};
        return N[op >> 12] + std::to_string(op & 4095);
    }
};

void ladder(const uint8_t *p, size_t)
{
    uint32_t n = getv<uint32_t>(p); int pat = p[0], rem = p[1];
    arena_limit = (size_t)1 << 30; integers = false;
    std::vector<Elem> es(n);
    auto prio = [&](uint32_t i) -> int {
        switch (pat) {
            case 0: return i;
            case 1: return -(int)i;
            case 2: return 7;
            case 3: return i % 2 ? (int)i : -(int)i;
            case 4: return (uint64_t)i * 7919 % 1009;
            case 5: return (uint64_t)i * 104729 % 5;
            default: return i / 2 < n / 4 ? (int)i : (int)(n - i);
        }
    };
    priorq_t *q = make(rem & 4, true);
    style = 0;
    std::vector<int> sorted; size_t count = 0; int least = INT_MAX;
    for (uint32_t i = 0; i < n; i++) {
        es[i].prio = prio(i); es[i].in = 1; es[i].loc = (void *)-1;
        priorq_enqueue(q, &es[i]); count++;
        least = std::min(least, es[i].prio);
        Elem *pk = (Elem *)priorq_peek(q);
        ORD_CHECK(pk && pk->in && pk->prio == least, "peek after %u enqueues is not a least element", i + 1);
        ORD_CHECK(priorq_size(q) == count, "size wrong after %u enqueues", i + 1);
    }
    // remove by locator
    for (uint32_t i = 0; i < n; i++) {
        bool kill;
        switch (rem & 3) { case 0: kill = false; break; case 1: kill = i % 2; break; case 2: kill = i % 3 == 0; break; default: kill = i < n / 2; }
        if (!kill) continue;
        const void *r = priorq_remove(q, es[i].loc);
        LOC_CHECK(r == &es[i], "removing element %u of %u by its most recent locator returned %s", i, n, r ? "another element" : "nothing");
        es[i].in = 0; count--;
        ORD_CHECK(priorq_size(q) == count, "size wrong after removal");
    }
    // some unordered pops
    for (uint32_t i = 0; i < n / 8 && count; i++) {
        Elem *e = (Elem *)priorq_pop(q);
        ORD_CHECK(e && e->in, "pop returned something that is not contained");
        e->in = 0; count--;
    }
    std::vector<Elem *> rest;
    for (auto &e : es) if (e.in) rest.push_back(&e);
    std::stable_sort(rest.begin(), rest.end(), [](Elem *a, Elem *b) { return a->prio < b->prio; });
    if (deciding_loc) {
        for (size_t i = 0; i < rest.size(); i++) {
            Elem *e = rest[(i * 7) % rest.size()];
            if (rest.size() % 7 == 0) e = rest[i];
            if (!e->in) continue;
            const void *r = priorq_remove(q, e->loc);
            LOC_CHECK(r == e, "removing an element by its most recent locator returned %s", r ? "another element" : "nothing");
            e->in = 0; count--;
            if (i % 16 == 5 && count) { Elem *d = (Elem *)priorq_dequeue(q); LOC_CHECK(d && d->in, "dequeue returned an element already removed by its locator"); d->in = 0; count--; }
        }
        LOC_CHECK(priorq_size(q) == 0, "elements remain after all were removed");
    } else
        for (size_t i = 0; i < rest.size(); i++) {
            Elem *e = (Elem *)priorq_dequeue(q);
            ORD_CHECK(e && e->in, "dequeue returned something that is not contained");
            ORD_CHECK(e->prio == rest[i]->prio, "dequeue number %zu of %zu is not a least element", i, rest.size());
            e->in = 0;
        }
    step(3 * n);
    outcome((uint64_t)pat << 32 | rest.size());
    destroy_priority_queue(q);
    if (arena_strict && arena_live()) alloc_fail("%zu block(s) still allocated after everything was destroyed (%s)", arena_live(), arena_describe_live().c_str());
}
}
void prq_suites(std::vector<Suite> &out, bool alloc, bool loc)
{
    deciding_loc = loc;
    Suite s;
    int n = alloc ? 6 : thorough ? 13 : 12;
    s.name = "prq-heaps";
    s.bound = "all histories of enqueue at every rank, dequeue, pop and removal by every locator, up to " + std::to_string(n) + " distinct priorities, states by arrangement";
    s.make = [=] { return new RSys(n, false, false); };
    s.time_share = 2;
    out.push_back(s);
    int t = alloc ? 4 : thorough ? 10 : 9;
    s.name = "prq-ties";
    s.bound = "the same with equal priorities, up to " + std::to_string(t) + " elements";
    s.make = [=] { return new RSys(t, true, false); };
    out.push_back(s);
    s.name = "prq-image";
    s.bound = "the same with the complete heap image (including abandoned slots) as the state, up to 7 elements, 8 callback conventions";
    s.nconfigs = 8;
    s.make = [=] { return new RSys(alloc ? 3 : thorough ? 8 : 7, true, true); };
    out.push_back(s);
    s.name = "prq-repeated";
    s.nconfigs = 4;
    s.bound = "4 element objects, each enqueued any number of times, up to 5 contained, removal by locator of those not repeated";
    s.make = [=] { return new FSys(alloc ? 3 : 4, alloc ? 3 : thorough ? 6 : 5, false, true, false); };
    out.push_back(s);
    s.name = "prq-integers";
    s.nconfigs = 1;
    s.bound = "boxed integer elements including NULL";
    s.make = [=] { return new FSys(alloc ? 3 : 5, alloc ? 3 : 5, true, true, true); };
    out.push_back(s);
    if (!loc) {
        s.name = "prq-noreloc";
        s.nconfigs = 8;
        s.bound = "no relocation callback, up to 7 elements with ties, complete heap image";
        s.make = [=] { return new RSys(alloc ? 3 : thorough ? 8 : 7, true, true, true); };
        out.push_back(s);
    }
    Suite d;
    d.name = "prq-sizes";
    int dense = alloc ? 40 : thorough ? 700 : 300, top = alloc ? 7 : 17;
    d.bound = "scripted fill/remove/pop/drain histories of every size up to " + std::to_string(dense) + " and around powers of two up to 2^" + std::to_string(top) + ", 7 priority patterns x 4 removal patterns";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        std::vector<uint32_t> ns;
        for (int k = 0; k <= dense; k++) ns.push_back(k);
        for (int k = 9; k <= top; k++) for (int j = -1; j <= 1; j++) ns.push_back((1u << k) + j);
        for (auto n : ns) for (int pat = 0; pat < 7; pat++) for (int rem = 0; rem < 8; rem++) {
            if (n > 20000 && !thorough && rem != pat) continue;
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); v.push_back(pat); v.push_back(rem); e.run(v.data(), v.size()); }
        }
    };
    d.exec = ladder;
    d.describe = [](const uint8_t *p, size_t) { auto n = getv<uint32_t>(p); return std::to_string(n) + " elements, priority pattern " + std::to_string(p[0]) + ", removal pattern " + std::to_string(p[1]); };
    out.push_back(d);
}
#ifndef MC_COMBINED
namespace mc { void suites(std::vector<Suite> &out) { prq_suites(out, false, prop == "C06"); } }
#endif
