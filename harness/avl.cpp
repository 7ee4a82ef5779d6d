// C01 (ordered map), C02 (lookup cost) and the AVL part of C09.
#include "mc.hpp"
#include <algorithm>
#include <climits>
#include <cmath>
#include "avltree.h"
#include "integer.h"
#include "fsalloc.h"
using namespace mc;
namespace {
bool cost;                       // deciding C02: only the cost oracle reports
// A functional mismatch is not C02's business: such a trace is abandoned.
#define FN_CHECK(cond, ...) do { if (!(cond)) { if (cost) throw Prune(); fail(__VA_ARGS__); } } while (0)

struct Key { int rank; int pad; };
const int POOL = 2048;
Key keys[POOL];
char vals[POOL];
Key probe;

// ---- comparator instrumentation
uint64_t ncmp, distinct_n;
const void *distinct[4096];
char context;
int cmp_style;
// The comparator is called with the probe key and a stored key, in either order.
const void *cur_key;
inline void note(const void *a, const void *b)
{
    ncmp++;
    if (!cost) return;
    const void *k = a == cur_key ? b : a;
    for (uint64_t i = 0; i < distinct_n; i++) if (distinct[i] == k) return;
    if (distinct_n < 4096) distinct[distinct_n++] = k;
}
int raw_cmp(const void *a, const void *b)
{
    note(a, b);
    int x = ((const Key *)a)->rank, y = ((const Key *)b)->rank;
    switch (cmp_style) {
        case 0: return x < y ? -1 : x > y;
        case 1: return x == y ? 0 : x < y ? -65536 : 65536 << (x - y) % 8;
        case 2: return x < y ? INT_MIN : x > y ? INT_MAX : 0;
        default: return x < y ? -2 : x > y ? 1 : 0;
    }
}
int cmp2(const void *a, const void *b, void *obj)
{
    if (obj != &context && !cost) fail("the comparator did not receive the context argument");
    return raw_cmp(a, b);
}
int cmp1(const void *a, const void *b) { return raw_cmp(a, b); }

// Height of the tallest AVL tree with n elements.
int maxheight(size_t n)
{
    // minimal sizes: N(1)=1, N(2)=2, N(h)=N(h-1)+N(h-2)+1
    size_t a = 0, b = 1; int h = 0;
    while (b <= n) { size_t c = a + b + 1; a = b; b = c; h++; }
    return h;
}
void begin_count(const void *key) { cur_key = key; ncmp = distinct_n = 0; }
void end_count(size_t n, const char *what)
{
    if (!cost) return;
    int h = maxheight(n);
    outcome((uint64_t)n << 8 | distinct_n);
    if ((int)distinct_n > h)
        fail("%s in a tree of %zu elements compared the key with %llu stored keys; at most %d are needed in a balanced tree (1.4405*log2(n+2) = %.2f)",
             what, n, (unsigned long long)distinct_n, h, 1.4405 * log2(n + 2.0));
    if (ncmp > 4ull * h + 4)
        fail("%s in a tree of %zu elements called the comparator %llu times", what, n, (unsigned long long)ncmp);
}

struct Ent { Key *k; const void *v; };
struct T {
    avl_tree_t *t = nullptr;
    std::vector<Ent> m;
    void renumber() { for (size_t i = 0; i < m.size(); i++) m[i].k->rank = 2 * i + 2; }
};

// All queries with probe rank r (even: member r/2-1, odd: gap r/2).
void probe_check(T &x, int r)
{
    size_t n = x.m.size();
    probe.rank = r;
    int at = r % 2 == 0 ? r / 2 - 1 : -1;
    int before = r % 2 == 0 ? r / 2 - 2 : r / 2 - 1;       // index of last member < r
    int after = r % 2 == 0 ? r / 2 : r / 2;                // index of first member > r
    if (after >= (int)n) after = -1;
    struct { const char *name; avl_elem_t *(*f)(avl_tree_t *, const void *); int want; } Q[] = {
        {"get", avl_tree_get, at},
        {"get_before", avl_tree_get_before, before},
        {"get_on_or_before", avl_tree_get_on_or_before, at >= 0 ? at : before},
        {"get_after", avl_tree_get_after, after},
        {"get_on_or_after", avl_tree_get_on_or_after, at >= 0 ? at : after},
    };
    for (auto &q : Q) {
        begin_count(&probe);
        avl_elem_t *e = q.f(x.t, &probe);
        end_count(n, q.name);
        FN_CHECK((e != nullptr) == (q.want >= 0), "%s for %s key (rank %d of %zu) %s", q.name, at >= 0 ? "a present" : "an absent", r, n, e ? "yields an element, expected none" : "yields nothing");
        if (e) {
            FN_CHECK(avl_elem_get_key(e) == x.m[q.want].k, "%s (rank %d of %zu) yields the wrong element", q.name, r, n);
            FN_CHECK(avl_elem_get_value(e) == x.m[q.want].v, "%s (rank %d of %zu) yields the wrong value", q.name, r, n);
        }
    }
    step(5);
}
void order_check(T &x)
{
    size_t n = x.m.size();
    FN_CHECK(avl_tree_size(x.t) == n, "size is %zu, expected %zu", avl_tree_size(x.t), n);
    FN_CHECK((avl_tree_empty(x.t) != 0) == (n == 0), "emptiness wrong with %zu elements", n);
    avl_elem_t *e = avl_tree_get_first(x.t);
    for (size_t i = 0; i < n; i++) {
        FN_CHECK(e, "forward traversal ends after %zu of %zu elements", i, n);
        FN_CHECK(avl_elem_get_key(e) == x.m[i].k && avl_elem_get_value(e) == x.m[i].v, "forward traversal yields the wrong element at %zu", i);
        avl_elem_t *p = avl_tree_previous(e);
        if (i == 0) FN_CHECK(!p, "the first element has a predecessor");
        else FN_CHECK(p && avl_elem_get_key(p) == x.m[i - 1].k, "stepping back from element %zu is wrong", i);
        e = avl_tree_next(e);
    }
    FN_CHECK(!e, "forward traversal does not end after %zu elements", n);
    e = avl_tree_get_last(x.t);
    for (size_t i = n; i-- > 0;) {
        FN_CHECK(e, "backward traversal ends at %zu", i);
        FN_CHECK(avl_elem_get_key(e) == x.m[i].k && avl_elem_get_value(e) == x.m[i].v, "backward traversal yields the wrong element at %zu", i);
        e = avl_tree_previous(e);
    }
    FN_CHECK(!e, "backward traversal does not end");
    step(2 * n + 4);
}
void full_check(T &x)
{
    order_check(x);
    for (int r = 1; r <= 2 * (int)x.m.size() + 1; r++) probe_check(x, r);
}

enum { PUT, REPLACE, SAME, POP, POPGAP, DETACH, REMOVE, POPF, POPL, COPY, QUERY };
struct Sys : System {
    int maxn; bool two, queries, variants; int hold;   // hold: 0 no, 1 keep the last detached element, 2 and make it part of the state
    Sys(int n, bool two, bool q, bool variants, int hold = 0) : maxn(n), two(two), queries(q), variants(variants), hold(hold) {}
    T t[2];
    int nk, nv;
    avl_elem_t *held; Key *heldk; const void *heldv;
    Key *newkey(int rank) { if (nk >= POOL) throw Prune(); Key *k = &keys[nk++]; k->rank = rank; return k; }
    const void *newval() { if (nv >= POOL) throw Prune(); return &vals[nv++]; }
    avl_tree_t *make(int config)
    {
        cmp_style = config % 4;
        return config < 4 ? make_avl_tree_2(cmp2, &context) : make_avl_tree(cmp1);
    }
    void start(int config) override
    {
        nk = nv = 0; held = nullptr;
        t[0] = T(); t[1] = T();
        t[0].t = make(config);
        FN_CHECK(t[0].t, "no tree created");
    }
    static uint16_t code(int k, int w, int pos) { return k << 12 | w << 11 | pos; }
    void ops(std::vector<uint16_t> &o) override
    {
        for (int w = 0; w < 2; w++) {
            if (!t[w].t) continue;
            int n = t[w].m.size();
            if (n < maxn) for (int g = 0; g <= n; g++) o.push_back(code(PUT, w, g));
            for (int i = 0; i < n; i++) {
                o.push_back(code(POP, w, i));
                if (variants) {
                    o.push_back(code(REPLACE, w, i));
                    o.push_back(code(SAME, w, i));
                    o.push_back(code(DETACH, w, i));
                    o.push_back(code(REMOVE, w, i));
                }
            }
            if (variants) {
                for (int g = 0; g <= n; g++) o.push_back(code(POPGAP, w, g));
                o.push_back(code(POPF, w, 0)); o.push_back(code(POPL, w, 0));
            }
            if (queries) for (int r = 1; r <= 2 * n + 1; r++) for (int q = 0; q < 6; q++) o.push_back(code(QUERY, w, q * 128 + r));
            if (two) o.push_back(code(COPY, w, 0));
        }
    }
    void gone(T &x, int i, avl_elem_t *e, const char *what)
    {
        FN_CHECK(e, "%s returned nothing", what);
        FN_CHECK(avl_elem_get_key(e) == x.m[i].k && avl_elem_get_value(e) == x.m[i].v, "%s handed back the wrong association", what);
        Ent ent = x.m[i];
        x.m.erase(x.m.begin() + i);
        x.renumber();
        dispose(e, ent.k, ent.v);
    }
    void check_held()
    {
        if (held)
            FN_CHECK(avl_elem_get_key(held) == heldk && avl_elem_get_value(held) == heldv, "a detached association lost its key or value");
    }
    void dispose(avl_elem_t *e, Key *k, const void *v)
    {
        if (!hold) { destroy_avl_element(e); return; }
        if (held) { check_held(); destroy_avl_element(held); }
        held = e; heldk = k; heldv = v;
    }
    void apply(uint16_t op) override
    {
        int k = op >> 12, w = op >> 11 & 1, pos = op & 2047;
        T &x = t[w];
        size_t n = x.m.size();
        step();
        switch (k) {
            case PUT: {
                Key *key = newkey(2 * pos + 1); const void *v = newval();
                begin_count(key);
                avl_elem_t *e = avl_tree_put(x.t, key, v);
                end_count(n, "put");
                FN_CHECK(!e, "put under a new key returned an element");
                x.m.insert(x.m.begin() + pos, {key, v});
                x.renumber();
                break;
            }
            case REPLACE: {
                Key *key = newkey(x.m[pos].k->rank); const void *v = newval();
                begin_count(key);
                avl_elem_t *e = avl_tree_put(x.t, key, v);
                end_count(n, "put");
                FN_CHECK(e, "put under a present key did not hand back the old association");
                Ent old = x.m[pos];
                FN_CHECK(avl_elem_get_key(e) == old.k && avl_elem_get_value(e) == old.v, "put handed back the wrong association");
                x.m[pos] = {key, v};
                dispose(e, old.k, old.v);
                break;
            }
            case SAME: {
                Key *key = newkey(x.m[pos].k->rank);
                begin_count(key);
                avl_elem_t *e = avl_tree_put(x.t, key, x.m[pos].v);
                end_count(n, "put");
                FN_CHECK(!e, "put of the value already stored at the key returned an element");
                break;
            }
            case POP: {
                probe.rank = x.m[pos].k->rank;
                begin_count(&probe);
                avl_elem_t *e = avl_tree_pop(x.t, &probe);
                end_count(n, "pop");
                gone(x, pos, e, "pop");
                break;
            }
            case POPGAP: {
                probe.rank = 2 * pos + 1;
                begin_count(&probe);
                avl_elem_t *e = avl_tree_pop(x.t, &probe);
                end_count(n, "pop");
                FN_CHECK(!e, "pop of an absent key returned an element");
                break;
            }
            case DETACH: case REMOVE: {
                probe.rank = x.m[pos].k->rank;
                avl_elem_t *e = avl_tree_get(x.t, &probe);
                FN_CHECK(e && avl_elem_get_key(e) == x.m[pos].k, "lookup before detaching failed");
                if (k == REMOVE) { avl_tree_remove(x.t, e); x.m.erase(x.m.begin() + pos); x.renumber(); }
                else { avl_tree_detach(x.t, e); gone(x, pos, e, "detach"); }
                break;
            }
            case POPF: case POPL: {
                avl_elem_t *e = k == POPF ? avl_tree_pop_first(x.t) : avl_tree_pop_last(x.t);
                if (!n) FN_CHECK(!e, "popping from an empty tree returned an element");
                else gone(x, k == POPF ? 0 : n - 1, e, k == POPF ? "pop_first" : "pop_last");
                break;
            }
            case COPY: {
                T &y = t[1 - w];
                if (y.t) destroy_avl_tree(y.t);
                y = T();
                y.t = avl_tree_copy(x.t);
                FN_CHECK(y.t && y.t != x.t, "copy is not a new tree");
                // same key and value objects; the copy gets its own ranks by
                // construction because both trees are renumbered alike
                y.m = x.m;
                break;
            }
            case QUERY: {
                int q = pos / 128, r = pos % 128;
                if (q == 5) { order_check(x); break; }
                probe.rank = r;
                avl_elem_t *(*F[])(avl_tree_t *, const void *) = {avl_tree_get, avl_tree_get_before, avl_tree_get_on_or_before, avl_tree_get_after, avl_tree_get_on_or_after};
                begin_count(&probe);
                avl_elem_t *e = F[q](x.t, &probe);
                end_count(n, "lookup");
                int at = r % 2 == 0 ? r / 2 - 1 : -1, before = (r + 1) / 2 - 1 - (r % 2 == 0), after = r / 2 < (int)n ? r / 2 : -1;
                if (r % 2) before = r / 2 - 1; else before = r / 2 - 2;
                int want[] = {at, before, at >= 0 ? at : before, after, at >= 0 ? at : after};
                FN_CHECK((e != nullptr) == (want[q] >= 0) && (!e || avl_elem_get_key(e) == x.m[want[q]].k), "lookup kind %d at rank %d of %zu is wrong", q, r, n);
                break;
            }
        }
        if (!cost) outcome(k * 100 + x.m.size());
    }
    void check() override
    {
        // ranks are per tree: refresh before looking at each
        for (int w = 0; w < 2; w++) if (t[w].t) { t[w].renumber(); full_check(t[w]); }
        check_held();
    }
    void canon(Canon &c) override
    {
        // Each tree is canonicalised with its keys named by rank within it.
        for (int w = 0; w < 2; w++) {
            c.root(t[w].t);
        }
        std::vector<int> kr(nk, -1), vr(nv, -1);
        for (int w = 0; w < 2; w++)
            for (size_t i = 0; i < t[w].m.size(); i++) {
                kr[t[w].m[i].k - keys] = i + 1000 * (w + 1) ;
                vr[(const char *)t[w].m[i].v - vals] = i + 1000 * (w + 1);
            }
        int n1 = nk, n2 = nv;
        c.map = [kr, vr, n1, n2](uint64_t w, uint64_t &out) {
            if (w >= (uint64_t)keys && w < (uint64_t)(keys + n1) && (w - (uint64_t)keys) % sizeof(Key) == 0) { out = 0x10000 + kr[(w - (uint64_t)keys) / sizeof(Key)]; return true; }
            if (w >= (uint64_t)vals && w < (uint64_t)(vals + n2)) { out = 0x20000 + vr[w - (uint64_t)vals]; return true; }
            return false;
        };
        if (hold == 2) c.root(held); else c.add(held != nullptr);
    }
    void finish() override
    {
        for (auto &x : t) if (x.t) { destroy_avl_tree(x.t); x = T(); }
        if (held) { check_held(); destroy_avl_element(held); held = nullptr; }
    }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"put@gap", "replace#", "put-same-value#", "pop#", "pop-absent@gap", "detach#", "remove#", "pop_first", "pop_last", "copy", "query"};
        return std::string(N[op >> 12]) + std::to_string(op & 2047) + "[" + std::to_string(op >> 11 & 1) + "]";
    }
    std::string confname(int c) override
    {
        static const char *S[] = {"-1/0/1", "scaled difference", "INT_MIN/0/INT_MAX", "-2/0/1"};
        return std::string(c < 4 ? "context comparator, " : "plain comparator, ") + S[c % 4];
    }
};
// After a copy, both trees share key objects but evolve apart, so a shared key
// would need two ranks.  Use an explicit fixed key universe instead.
// Fixed universe: integer keys (one of them the NULL pointer), few values
// (one of them NULL), two trees, copies, queries.
struct USys : System {
    int K, V; bool two, queries;
    USys(int k, int v, bool two, bool q) : K(k), V(v), two(two), queries(q) {}
    avl_tree_t *t[2];
    std::vector<std::pair<int, const void *>> m[2];    // sorted by key
    const void *key(int i) { return as_integer(i - 1); }         // -1, 0 (NULL), 1, ...
    const void *val(int v) { return v ? &vals[v] : nullptr; }
    static int icmp(const void *a, const void *b) { note(a, b); intptr_t x = (intptr_t)a, y = (intptr_t)b; return x < y ? -1 : x > y; }
    static int icmp2(const void *a, const void *b, void *obj)
    {
        if (obj != &context && !cost) fail("the comparator did not receive the context argument");
        return icmp(a, b);
    }
    void start(int c) override { t[0] = c ? make_avl_tree_2(icmp2, &context) : make_avl_tree(icmp); t[1] = nullptr; m[0].clear(); m[1].clear(); }
    std::string confname(int c) override { return c ? "context comparator" : "plain comparator"; }
    static uint16_t code(int k, int w, int i, int v) { return k << 12 | w << 11 | i << 4 | v; }
    void ops(std::vector<uint16_t> &o) override
    {
        for (int w = 0; w < 2; w++) {
            if (!t[w]) continue;
            for (int i = 0; i < K; i++) {
                for (int v = 0; v < V; v++) o.push_back(code(PUT, w, i, v));
                o.push_back(code(POP, w, i, 0));
                if (queries) for (int q = 0; q < 5; q++) o.push_back(code(QUERY, w, i, q));
            }
            o.push_back(code(POPF, w, 0, 0)); o.push_back(code(POPL, w, 0, 0));
            if (two) o.push_back(code(COPY, w, 0, 0));
        }
    }
    void lookup(int w, int i, int q)
    {
        auto &x = m[w];
        int at = -1, before = -1, after = -1;
        for (int j = 0; j < (int)x.size(); j++) {
            if (x[j].first == i) at = j;
            if (x[j].first < i) before = j;
            if (x[j].first > i && after < 0) after = j;
        }
        int want[] = {at, before, at >= 0 ? at : before, after, at >= 0 ? at : after};
        avl_elem_t *(*F[])(avl_tree_t *, const void *) = {avl_tree_get, avl_tree_get_before, avl_tree_get_on_or_before, avl_tree_get_after, avl_tree_get_on_or_after};
        avl_elem_t *e = F[q](t[w], key(i));
        FN_CHECK((e != nullptr) == (want[q] >= 0), "lookup kind %d of key %d in tree %d: wrong presence", q, i - 1, w);
        if (e) FN_CHECK(avl_elem_get_key(e) == key(x[want[q]].first) && avl_elem_get_value(e) == x[want[q]].second, "lookup kind %d of key %d in tree %d: wrong element", q, i - 1, w);
        step();
    }
    void gone(int w, int j, avl_elem_t *e)
    {
        FN_CHECK(e && avl_elem_get_key(e) == key(m[w][j].first) && avl_elem_get_value(e) == m[w][j].second, "pop handed back the wrong association");
        m[w].erase(m[w].begin() + j);
        destroy_avl_element(e);
    }
    void apply(uint16_t op) override
    {
        int k = op >> 12, w = op >> 11 & 1, i = op >> 4 & 127, v = op & 15;
        auto &x = m[w];
        int j = -1, pos = 0;
        for (int q = 0; q < (int)x.size(); q++) { if (x[q].first == i) j = q; if (x[q].first < i) pos = q + 1; }
        step();
        switch (k) {
            case PUT: {
                avl_elem_t *e = avl_tree_put(t[w], key(i), val(v));
                if (j < 0) { FN_CHECK(!e, "put under a new key returned an element"); x.insert(x.begin() + pos, {i, val(v)}); }
                else if (x[j].second == val(v)) FN_CHECK(!e, "put of the same value returned an element");
                else {
                    FN_CHECK(e && avl_elem_get_key(e) == key(i) && avl_elem_get_value(e) == x[j].second, "put did not hand back the replaced association");
                    destroy_avl_element(e);
                    x[j].second = val(v);
                }
                break;
            }
            case POP: {
                avl_elem_t *e = avl_tree_pop(t[w], key(i));
                if (j < 0) FN_CHECK(!e, "pop of an absent key returned an element");
                else gone(w, j, e);
                break;
            }
            case POPF: case POPL: {
                avl_elem_t *e = k == POPF ? avl_tree_pop_first(t[w]) : avl_tree_pop_last(t[w]);
                if (x.empty()) FN_CHECK(!e, "pop from an empty tree returned an element");
                else gone(w, k == POPF ? 0 : x.size() - 1, e);
                break;
            }
            case COPY: {
                if (t[1 - w]) destroy_avl_tree(t[1 - w]);
                t[1 - w] = avl_tree_copy(t[w]);
                m[1 - w] = m[w];
                break;
            }
            case QUERY: lookup(w, i, v); break;
        }
        if (!cost) outcome(k * 100 + x.size());
    }
    void check() override
    {
        for (int w = 0; w < 2; w++) {
            if (!t[w]) continue;
            auto &x = m[w];
            FN_CHECK(avl_tree_size(t[w]) == x.size() && (avl_tree_empty(t[w]) != 0) == x.empty(), "size or emptiness wrong");
            avl_elem_t *e = avl_tree_get_first(t[w]);
            for (auto &p : x) { FN_CHECK(e && avl_elem_get_key(e) == key(p.first) && avl_elem_get_value(e) == p.second, "forward traversal wrong"); e = avl_tree_next(e); }
            FN_CHECK(!e, "forward traversal too long");
            e = avl_tree_get_last(t[w]);
            for (size_t i = x.size(); i-- > 0;) { FN_CHECK(e && avl_elem_get_key(e) == key(x[i].first), "backward traversal wrong"); e = avl_tree_previous(e); }
            FN_CHECK(!e, "backward traversal too long");
            for (int i = -1; i <= K; i++) for (int q = 0; q < 5; q++) lookup(w, i, q);
        }
    }
    void canon(Canon &c) override { c.root(t[0]); c.root(t[1]); }
    void finish() override { for (auto &x : t) if (x) { destroy_avl_tree(x); x = nullptr; } }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"put", "", "", "pop", "", "", "", "pop_first", "pop_last", "copy", "query"};
        char b[64]; snprintf(b, sizeof b, "%s[%d](key %d, %d)", N[op >> 12], op >> 11 & 1, (op >> 4 & 127) - 1, op & 15);
        return b;
    }
};

// Scripted long histories: every n and insertion/deletion pattern.
Key *lkeys; uint32_t lcap;
uint32_t perm(uint32_t n, int pat, uint32_t i)
{
    switch (pat) {
        case 0: return i;
        case 1: return n - 1 - i;
        case 2: return i % 2 ? n - 1 - i / 2 : i / 2;                    // outside in
        case 3: { uint32_t mid = n / 2; return i % 2 ? (mid + (i + 1) / 2 < n ? mid + (i + 1) / 2 : n - 1 - i) : mid - i / 2; }
        default: { // multiplicative permutation
            uint64_t s = pat == 4 ? 7919 : 104729;
            auto g = [](uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; };
            while (g(s, n) != 1) s++;
            return i * s % n;
        }
    }
}
void ladder(const uint8_t *p, size_t)
{
    uint32_t n = getv<uint32_t>(p); int ip = p[0], dp = p[1];
    arena_limit = (size_t)3 << 30;
    if (lcap < n) { lkeys = (Key *)realloc(lkeys, (n + 1) * sizeof(Key)); lcap = n; }
    cmp_style = 0;
    // validate the permutations (harness sanity): pattern 3 may repeat for tiny n
    auto order = [&](int pat) {
        std::vector<uint32_t> o; std::vector<bool> seen(n, false);
        for (uint32_t i = 0; i < n; i++) { uint32_t x = perm(n, pat, i); if (x < n && !seen[x]) { seen[x] = true; o.push_back(x); } }
        for (uint32_t i = 0; i < n; i++) if (!seen[i]) o.push_back(i);
        return o;
    };
    auto ins = order(ip), del = order(dp);
    for (uint32_t i = 0; i < n; i++) lkeys[i].rank = 2 * i + 2;
    T x; x.t = make_avl_tree_2(cmp2, &context);
    std::vector<char> in(n, 0);
    auto neighbours = [&](uint32_t k, const char *when) {
        // lookups around rank of k against the membership array
        probe.rank = 2 * k + 2;
        size_t sz = avl_tree_size(x.t);
        begin_count(&probe); avl_elem_t *e = avl_tree_get(x.t, &probe); end_count(sz, "get");
        FN_CHECK((e != nullptr) == (in[k] != 0) && (!e || avl_elem_get_key(e) == &lkeys[k]), "%s: lookup of key %u of %u wrong", when, k, n);
        int64_t b = (int64_t)k - 1; while (b >= 0 && !in[b]) b--;
        begin_count(&probe); e = avl_tree_get_before(x.t, &probe); end_count(sz, "get_before");
        FN_CHECK((e != nullptr) == (b >= 0) && (!e || avl_elem_get_key(e) == &lkeys[b]), "%s: predecessor lookup of key %u of %u wrong", when, k, n);
        int64_t a = (int64_t)k + 1; while (a < n && !in[a]) a++;
        begin_count(&probe); e = avl_tree_get_after(x.t, &probe); end_count(sz, "get_after");
        FN_CHECK((e != nullptr) == (a < n) && (!e || avl_elem_get_key(e) == &lkeys[a]), "%s: successor lookup of key %u of %u wrong", when, k, n);
        step(3);
    };
    auto traverse = [&](const char *when) {
        avl_elem_t *e = avl_tree_get_first(x.t); size_t c = 0;
        for (uint32_t i = 0; i < n; i++) if (in[i]) { FN_CHECK(e && avl_elem_get_key(e) == &lkeys[i], "%s: traversal wrong at key %u of %u", when, i, n); e = avl_tree_next(e); c++; }
        FN_CHECK(!e, "%s: traversal too long", when);
        e = avl_tree_get_last(x.t);
        for (uint32_t i = n; i-- > 0;) if (in[i]) { FN_CHECK(e && avl_elem_get_key(e) == &lkeys[i], "%s: backward traversal wrong at key %u of %u", when, i, n); e = avl_tree_previous(e); }
        FN_CHECK(!e, "%s: backward traversal too long", when);
        FN_CHECK(avl_tree_size(x.t) == c, "%s: size %zu, expected %zu", when, avl_tree_size(x.t), c);
        step(2 * c);
    };
    auto all_gets = [&](const char *when) {
        size_t sz = avl_tree_size(x.t);
        for (int r = 1; r <= 2 * (int)n + 1; r++) {
            probe.rank = r;
            begin_count(&probe); avl_elem_t *e = avl_tree_get(x.t, &probe); end_count(sz, "get");
            bool want = r % 2 == 0 && in[r / 2 - 1];
            FN_CHECK((e != nullptr) == want, "%s: lookup of rank %d of %u wrong", when, r, n);
        }
        step(2 * n);
    };
    for (uint32_t i = 0; i < n; i++) {
        begin_count(&lkeys[ins[i]]);
        avl_elem_t *e = avl_tree_put(x.t, &lkeys[ins[i]], &vals[1 + ins[i] % 7]);
        end_count(i, "put");
        FN_CHECK(!e, "put under a new key returned an element");
        in[ins[i]] = 1;
        if (n <= 64 || (i & 1023) == 0) neighbours(ins[i], "while inserting");
        step();
    }
    traverse("after inserting"); all_gets("after inserting");
    avl_tree_t *copy = avl_tree_copy(x.t);
    { T orig = x; x.t = copy; traverse("in the copy"); all_gets("in the copy"); x = orig; }
    for (uint32_t i = 0; i < n; i++) {
        if (i == n / 2) { traverse("half way through deleting"); all_gets("half way through deleting"); }
        uint32_t k = del[i];
        probe.rank = 2 * k + 2;
        begin_count(&probe); avl_elem_t *e = avl_tree_pop(x.t, &probe); end_count(n - i, "pop");
        FN_CHECK(e && avl_elem_get_key(e) == &lkeys[k] && avl_elem_get_value(e) == &vals[1 + k % 7], "pop handed back the wrong association");
        destroy_avl_element(e);
        in[k] = 0;
        if (n <= 64 || ((i & 1023) == 0 && n <= 5000)) neighbours(k, "while deleting");
        if (n <= 40) { traverse("while deleting"); all_gets("while deleting"); }
        step();
    }
    FN_CHECK(avl_tree_empty(x.t) && avl_tree_size(x.t) == 0, "not empty after deleting everything");
    for (uint32_t i = 0; i < n; i++) in[i] = 1;
    { T orig = x; x.t = copy; traverse("in the copy afterwards"); x = orig; }
    destroy_avl_tree(copy);
    destroy_avl_tree(x.t);
    if (arena_strict && arena_live()) alloc_fail("%zu block(s) still allocated after everything was destroyed (%s)", arena_live(), arena_describe_live().c_str());
}
}
void avl_suites(std::vector<Suite> &out, bool alloc, bool deciding_cost)
{
    cost = deciding_cost;
    int shapes = alloc ? (thorough ? 12 : 9) : cost ? (thorough ? 22 : 18) : (thorough ? 19 : 15);
    Suite s;
    s.name = "avl-shapes";
    s.bound = "all histories reaching trees of up to " + std::to_string(shapes) + " elements: every insertion position, every deletion, in every reachable tree shape";
    s.make = [=] { return new Sys(shapes, false, false, !cost); };
    s.time_share = 3;
    out.push_back(s);
    if (cost) {
        s.name = "avl-variants";
        s.bound = "all histories including replacement, unchanged put, detach, remove, failed pop, up to 12 elements";
        s.make = [=] { return new Sys(thorough ? 16 : 12, false, false, true); };
        out.push_back(s);
    } else {
        int h = alloc ? 7 : (thorough ? 12 : 10);
        s.name = "avl-comparators";
        s.bound = "all histories up to " + std::to_string(h) + " elements under 8 comparator conventions, detached associations kept across the following operations";
        s.nconfigs = 8;
        s.make = [=] { return new Sys(h, false, false, true, 1); };
        out.push_back(s);
        s.nconfigs = 1;
        int h2 = alloc ? 5 : thorough ? 7 : 6;
        s.name = "avl-detached";
        s.bound = "all histories up to " + std::to_string(h2) + " elements with the last detached association and its contents part of the state";
        s.make = [=] { return new Sys(h2, false, false, true, 2); };
        out.push_back(s);
        if (!alloc) {
            int q = thorough ? 12 : 9;
            s.name = "avl-queries";
            s.bound = "all histories mixing every query with mutations, up to " + std::to_string(q) + " elements";
            s.make = [=] { return new Sys(q, false, true, true); };
            out.push_back(s);
        }
    }
    {
        int k = alloc ? 4 : thorough ? 8 : 7, v = 2;
        s.name = "avl-two-trees";
        int k2 = alloc ? 3 : thorough ? 6 : 5;
        s.bound = "two trees over " + std::to_string(k2) + " integer keys (one NULL) with copies in either direction at any time";
        s.nconfigs = 2;
        s.make = [=] { return new USys(k2, cost ? 1 : 1, true, false); };
        out.push_back(s);
        if (!cost) {
            s.nconfigs = 1;
            s.name = "avl-values";
            s.bound = "one tree over " + std::to_string(k) + " integer keys (one NULL) and 2 values (one NULL), all puts, pops and queries";
            s.make = [=] { return new USys(k, v, false, !alloc); };
            out.push_back(s);
        }
    }
    Suite d;
    d.name = "avl-sizes";
    int top = alloc ? 10 : thorough ? 20 : 17;   // beyond 2^full, one insertion order per deletion order
    int full = thorough ? 17 : 14;
    int dense = alloc ? 60 : thorough ? 600 : 260;
    d.bound = "scripted build/copy/drain histories of every size up to " + std::to_string(dense) + " and around powers of two up to 2^" + std::to_string(top) + ", 6 insertion x 6 deletion orders (from 2^" + std::to_string(full + 1) + " on, 6 pairs)";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        std::vector<uint32_t> ns;
        for (uint32_t n = 0; n <= (uint32_t)dense; n++) ns.push_back(n);
        for (int k = 9; k <= top; k++) for (int j = -1; j <= 1; j++) ns.push_back((1u << k) + j);
        for (auto n : ns) for (int ip = 0; ip < 6; ip++) for (int dp = 0; dp < 6; dp++)
            if ((n < (1u << full) + 2 || (ip + dp) % 6 == 5) && e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); v.push_back(ip); v.push_back(dp); e.run(v.data(), v.size()); }
    };
    d.exec = ladder;
    d.describe = [](const uint8_t *p, size_t) { uint32_t n = getv<uint32_t>(p); return std::to_string(n) + " elements, insertion order " + std::to_string(p[0]) + ", deletion order " + std::to_string(p[1]); };
    out.push_back(d);
}
#ifndef MC_COMBINED
namespace mc { void suites(std::vector<Suite> &out) { avl_suites(out, false, prop == "C02"); } }
#endif
