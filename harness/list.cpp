// C04 (and the list part of C09): lists against an ideal sequence.
#include "mc.hpp"
#include <climits>
#include "list.h"
#include "fsalloc.h"
using namespace mc;
namespace {
char A, B, C, X;
const void *const VAL[4] = {nullptr, &A, &B, &C};

struct Member { list_elem_t *h; const void *v; };
struct L {
    list_t *l = nullptr;
    std::vector<Member> m;
};
struct Collect { std::vector<const void *> v; };
void collect(const void *v, void *arg) { ((Collect *)arg)->v.push_back(v); }

void full_check(L &x, const char *which)
{
    size_t n = x.m.size();
    MC_CHECK(list_size(x.l) == n, "%s: size is %zu, expected %zu", which, list_size(x.l), n);
    MC_CHECK((list_empty(x.l) != 0) == (n == 0), "%s: emptiness wrong for %zu members", which, n);
    list_elem_t *e = list_get_first(x.l);
    for (size_t i = 0; i < n; i++) {
        MC_CHECK(e == x.m[i].h, "%s: forward step %zu reaches the wrong element", which, i);
        MC_CHECK(list_elem_get_value(e) == x.m[i].v, "%s: member %zu has the wrong value", which, i);
        e = list_next(e);
    }
    MC_CHECK(!e, "%s: forward traversal does not end after %zu members", which, n);
    e = list_get_last(x.l);
    for (size_t i = n; i-- > 0;) {
        MC_CHECK(e == x.m[i].h, "%s: backward step to member %zu reaches the wrong element", which, i);
        e = list_previous(e);
    }
    MC_CHECK(!e, "%s: backward traversal does not end", which);
    step(2 * n + 4);
}
void query_check(L &x, const char *which)
{
    size_t n = x.m.size();
    const int odd[] = {-1, -2, INT_MIN, INT_MAX, (int)n, (int)n + 1};
    for (int i : odd)
        MC_CHECK(!list_get_by_index(x.l, i), "%s: index %d of %zu yields an element", which, i, n);
    for (size_t i = 0; i < n; i++)
        MC_CHECK(list_get_by_index(x.l, i) == x.m[i].h, "%s: index %zu yields the wrong element", which, i);
    const void *vals[] = {nullptr, &A, &B, &C, &X};
    for (auto v : vals) {
        list_elem_t *want = nullptr;
        for (auto &m : x.m) if (m.v == v) { want = m.h; break; }
        MC_CHECK(list_get(x.l, v) == want, "%s: search does not yield the first occurrence", which);
    }
    Collect c;
    list_foreach(x.l, collect, &c);
    MC_CHECK(c.v.size() == n, "%s: for-each visits %zu of %zu members", which, c.v.size(), n);
    for (size_t i = 0; i < n; i++) MC_CHECK(c.v[i] == x.m[i].v, "%s: for-each order wrong at %zu", which, i);
    step(12 + n);
}

enum { APPEND, PREPEND, INSERT, REMOVE, POPF, POPL, COPY, QUERY };
struct Sys : System {
    int maxn, nvals; bool copies, queries;
    Sys(int n, int v, bool c, bool q) : maxn(n), nvals(v), copies(c), queries(q) {}
    L l[2];
    void start(int) override
    {
        l[0] = L(); l[1] = L();
        l[0].l = make_list();
        MC_CHECK(l[0].l, "make_list() failed");
    }
    static uint16_t code(int k, int which, int pos, int v) { return k << 12 | which << 11 | pos << 4 | v; }
    void ops(std::vector<uint16_t> &o) override
    {
        for (int w = 0; w < 2; w++) {
            if (!l[w].l) continue;
            int n = l[w].m.size();
            if (n < maxn)
                for (int v = 0; v < nvals; v++) {
                    o.push_back(code(APPEND, w, 0, v));
                    o.push_back(code(PREPEND, w, 0, v));
                    for (int i = 0; i < n; i++) o.push_back(code(INSERT, w, i, v));
                }
            for (int i = 0; i < n; i++) o.push_back(code(REMOVE, w, i, 0));
            o.push_back(code(POPF, w, 0, 0));
            o.push_back(code(POPL, w, 0, 0));
            if (queries) o.push_back(code(QUERY, w, 0, 0));
            if (copies) o.push_back(code(COPY, w, 0, 0));   // copy list w over the other one
        }
    }
    void apply(uint16_t op) override
    {
        int k = op >> 12, w = op >> 11 & 1, pos = op >> 4 & 127, vi = op & 15;
        L &x = l[w];
        const void *v = VAL[vi];
        step();
        switch (k) {
            case APPEND: { auto e = list_append(x.l, v); MC_CHECK(e, "append returned NULL"); x.m.push_back({e, v}); break; }
            case PREPEND: { auto e = list_prepend(x.l, v); MC_CHECK(e, "prepend returned NULL"); x.m.insert(x.m.begin(), {e, v}); break; }
            case INSERT: { auto e = list_insert_before(x.l, v, x.m[pos].h); MC_CHECK(e, "insert returned NULL"); x.m.insert(x.m.begin() + pos, {e, v}); break; }
            case REMOVE: list_remove(x.l, x.m[pos].h); x.m.erase(x.m.begin() + pos); break;
            case POPF: case POPL: {
                const void *want = x.m.empty() ? nullptr : (k == POPF ? x.m.front().v : x.m.back().v);
                const void *got = k == POPF ? list_pop_first(x.l) : list_pop_last(x.l);
                MC_CHECK(got == want, "pop returned the wrong value");
                if (!x.m.empty()) x.m.erase(k == POPF ? x.m.begin() : x.m.end() - 1);
                break;
            }
            case COPY: {
                L &y = l[1 - w];
                if (y.l) destroy_list(y.l);
                y = L();
                y.l = list_copy(x.l);
                MC_CHECK(y.l && y.l != x.l, "copy is not a new list");
                list_elem_t *e = list_get_first(y.l);
                for (auto &m : x.m) {
                    MC_CHECK(e, "copy is too short");
                    MC_CHECK(list_elem_get_value(e) == m.v, "copy has a wrong value");
                    y.m.push_back({e, m.v});
                    e = list_next(e);
                }
                MC_CHECK(!e, "copy is too long");
                break;
            }
            case QUERY: query_check(x, "query"); break;
        }
        outcome(k * 100 + x.m.size());
    }
    void check() override
    {
        const char *names[] = {"list", "other list"};
        for (int w = 0; w < 2; w++) if (l[w].l) { full_check(l[w], names[w]); query_check(l[w], names[w]); full_check(l[w], names[w]); }
    }
    void canon(Canon &c) override { c.root(l[0].l); c.root(l[1].l); for (auto &x : l) for (auto &m : x.m) c.root(m.h); }
    void finish() override { for (auto &x : l) if (x.l) { destroy_list(x.l); x = L(); } }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"append", "prepend", "insert_before", "remove", "pop_first", "pop_last", "copy", "query"};
        static const char *V[] = {"NULL", "A", "B", "C"};
        int k = op >> 12; char b[64];
        snprintf(b, sizeof b, "%s[%d](%s%d%s%s)", N[k], op >> 11 & 1, k == INSERT || k == REMOVE ? "#" : "", k == INSERT || k == REMOVE ? op >> 4 & 127 : 0, k <= INSERT ? "," : "", k <= INSERT ? V[op & 15] : "");
        return b;
    }
};

// Long scripted histories of every length: build n members in one of several
// patterns, remove in one of several patterns, checking throughout.
void ladder(const uint8_t *p, size_t)
{
    uint32_t n = getv<uint32_t>(p); int pat = *p++;
    arena_limit = (size_t)2 << 30;
    L x; x.l = make_list();
    std::vector<Member> rev;           // for prepend patterns
    bool small = n <= 300;
    for (uint32_t i = 0; i < n; i++) {
        const void *v = (const void *)(uintptr_t)(0x100 + i % 5);
        if (pat % 2 == 0) x.m.push_back({list_append(x.l, v), v});
        else rev.push_back({list_prepend(x.l, v), v});
    }
    if (pat % 2) x.m.assign(rev.rbegin(), rev.rend());
    full_check(x, "long list");
    MC_CHECK(list_get_by_index(x.l, n ? n - 1 : 0) == (n ? x.m.back().h : nullptr), "long list: last index wrong");
    for (int64_t i : {(int64_t)n, (int64_t)n + 1, 2 * (int64_t)n, (int64_t)-1, (int64_t)-2, -(int64_t)n, -(int64_t)n - 1, 1 - (int64_t)n, (int64_t)-1001, (int64_t)INT_MIN, (int64_t)INT_MAX, (int64_t)INT_MIN + n, (int64_t)n + 65536, (int64_t)n / 2 + 65536, (int64_t)n / 2 - 65536})
        if (n <= 70000 && (i < 0 || i >= n) && i >= INT_MIN && i <= INT_MAX)
            MC_CHECK(!list_get_by_index(x.l, (int)i), "long list of %u: index %lld yields a member", n, (long long)i);
    {
        list_t *c = list_copy(x.l);
        MC_CHECK(list_size(c) == n, "copy of a long list has %zu members", list_size(c));
        list_elem_t *e = list_get_first(c);
        for (auto &m : x.m) { MC_CHECK(e && list_elem_get_value(e) == m.v, "copy of a long list differs"); e = list_next(e); }
        MC_CHECK(!e, "copy of a long list is too long");
        destroy_list(c);
    }
    if (small && n) {                  // middle insertion and removal
        size_t mid = n / 2;
        auto h = list_insert_before(x.l, &A, x.m[mid].h);
        x.m.insert(x.m.begin() + mid, {h, &A});
        full_check(x, "long list after insertion");
        list_remove(x.l, x.m[mid ? mid - 1 : 0].h);
        x.m.erase(x.m.begin() + (mid ? mid - 1 : 0));
        full_check(x, "long list after removal");
    }
    size_t lo = 0, hi = x.m.size();
    while (lo < hi) {
        const void *got, *want;
        bool front = pat / 2 == 0 ? true : pat / 2 == 1 ? false : (hi - lo) % 2;
        if (front) { want = x.m[lo++].v; got = list_pop_first(x.l); }
        else { want = x.m[--hi].v; got = list_pop_last(x.l); }
        MC_CHECK(got == want, "long list: pop returned the wrong value with %zu left", hi - lo);
        MC_CHECK(list_size(x.l) == hi - lo, "long list: size wrong with %zu left", hi - lo);
        MC_CHECK(list_get_first(x.l) == (lo < hi ? x.m[lo].h : nullptr) && list_get_last(x.l) == (lo < hi ? x.m[hi - 1].h : nullptr), "long list: ends wrong with %zu left", hi - lo);
        step(4);
    }
    MC_CHECK(list_empty(x.l), "long list: not empty at the end");
    destroy_list(x.l);
    if (arena_strict && arena_live()) alloc_fail("%zu block(s) still allocated after everything was destroyed (%s)", arena_live(), arena_describe_live().c_str());
    outcome(n);
}
}
void list_suites(std::vector<Suite> &out, bool alloc)
{
    int big = alloc ? (thorough ? 7 : 5) : (thorough ? 10 : 8), two = alloc ? 3 : (thorough ? 6 : 5), q = thorough ? 9 : 7;
    Suite s;
    s.name = "list-histories";
    s.bound = "all histories reaching lists of up to " + std::to_string(big) + " members over 3 values (NULL, A, B), every operation at every position";
    s.make = [=] { return new Sys(big, 3, false, false); };
    out.push_back(s);
    s.name = "list-copies";
    s.bound = "all histories over two lists (copy in either direction at any time) of up to " + std::to_string(two) + " members over 2 values";
    s.make = [=] { return new Sys(two, 2, true, true); };
    out.push_back(s);
    if (!alloc) {
        s.name = "list-queries";
        s.bound = "all histories mixing mutations and queries, up to " + std::to_string(q) + " members over 2 values";
        s.make = [=] { return new Sys(q, 2, false, true); };
        out.push_back(s);
    }
    Suite d;
    d.name = "list-lengths";
    d.bound = "scripted build/copy/drain histories of every length up to 300 and around powers of two up to 2^17 in 6 patterns";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (int pat = 0; pat < 6; pat++) {
            std::vector<uint32_t> ns;
            for (uint32_t n = 0; n <= 300; n++) ns.push_back(n);
            for (int k = 9; k <= (alloc ? 12 : 17); k++) for (int j = -1; j <= 1; j++) ns.push_back((1u << k) + j);
            for (auto n : ns) if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); v.push_back(pat); e.run(v.data(), v.size()); }
        }
    };
    d.exec = ladder;
    d.describe = [](const uint8_t *p, size_t) { uint32_t n = getv<uint32_t>(p); return "length " + std::to_string(n) + ", pattern " + std::to_string(*p); };
    out.push_back(d);
}
#ifndef MC_COMBINED
namespace mc { void suites(std::vector<Suite> &out) { list_suites(out, false); } }
#endif
