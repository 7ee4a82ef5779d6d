// C03 (and the hash table part of C09): hash tables against an ideal map.
#include "mc.hpp"
#include <map>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <csetjmp>
#include <climits>
#include "hashtable.h"
#include "integer.h"
#include "fsalloc.h"
using namespace mc;
namespace {
struct Key { uint64_t id; uint64_t pad; };
const int NK = 16;
Key keyobj[3][NK];                 // equal keys at different addresses; [2] is for queries only
char vals[16];
int hash_kind;
uint64_t hash_of(uint64_t id, int kind)
{
    switch (kind) {
        case 0: return 42;                               // all collide
        case 1: return id;
        case 2: return id * 53;                          // collide in a table of 53
        case 3: return ~id;                              // top of the range
        case 4: return id << 56 | (id & 1);
        case 5: return id % 2;
        case 6: return id * 0x9E3779B97F4A7C15ull;
        case 7: return id / 2 + 52;                      // straddles the last slot of 53
        default: return id % 3 ? 96 : 193 * id;
    }
}
const int NKINDS = 9;
uint64_t khash(const void *k) { return hash_of(((const Key *)k)->id, hash_kind); }
int kcmp(const void *a, const void *b)
{
    uint64_t x = ((const Key *)a)->id, y = ((const Key *)b)->id;
    switch (hash_kind % 3) {
        case 0: return x < y ? -1 : x > y;
        case 1: return x != y ? 65536 : 0;
        default: return x == y ? 0 : x < y ? INT_MIN : 256;
    }
}
const size_t CAPS[] = {0, 53, 54, 98};
const int NCAPS = sizeof CAPS / sizeof *CAPS;

enum { PUT, POP, DETACH, REMOVE, POPANY, GET, WALK };
struct Sys : System {
    int K, O, V, T, maxn; bool integers, queries;
    Sys(int K, int O, int V, int T, int maxn, bool integers, bool queries) : K(K), O(O), V(V), T(T), maxn(maxn), integers(integers), queries(queries) {}
    typedef std::pair<const void *, const void *> Ent;
    hash_table_t *t[2];
    std::map<int, Ent> m[2];
    hash_elem_t *held; Ent heldent;
    const void *key(int id, int o) { return integers ? (const void *)as_integer(id - 1) : &keyobj[o][id]; }
    const void *val(int v) { return v ? &vals[v] : nullptr; }
    void start(int config) override
    {
        for (int o = 0; o < 3; o++) for (int i = 0; i < NK; i++) keyobj[o][i].id = i;
        hash_kind = config % NKINDS;
        size_t cap = CAPS[config / NKINDS];
        for (int i = 0; i < 2; i++) {
            t[i] = nullptr; m[i].clear();
            if (i < T) {
                t[i] = integers ? make_hash_table(cap, (uint64_t (*)(const void *))hash_integer, (int (*)(const void *, const void *))integer_cmp)
                                : make_hash_table(cap, khash, kcmp);
                MC_CHECK(t[i], "no table created");
            }
        }
        held = nullptr;
    }
    static uint16_t code(int k, int w, int id, int o, int v) { return k << 12 | w << 11 | id << 6 | o << 4 | v; }
    void ops(std::vector<uint16_t> &out) override
    {
        for (int w = 0; w < T; w++) {
            for (int id = 0; id < K; id++) {
                if ((int)m[w].size() < maxn || m[w].count(id))
                    for (int o = 0; o < O; o++) for (int v = 0; v < V; v++) out.push_back(code(PUT, w, id, o, v));
                out.push_back(code(POP, w, id, 0, 0));
                if (m[w].count(id)) { out.push_back(code(DETACH, w, id, 0, 0)); out.push_back(code(REMOVE, w, id, 0, 0)); }
                if (queries) out.push_back(code(GET, w, id, 0, 0));
            }
            out.push_back(code(POPANY, w, 0, 0, 0));
            if (queries) out.push_back(code(WALK, w, 0, 0, 0));
        }
    }
    void check_held()
    {
        if (held) MC_CHECK(hash_elem_get_key(held) == heldent.first && hash_elem_get_value(held) == heldent.second, "a detached association lost its key or value");
    }
    void dispose(hash_elem_t *e, Ent ent)
    {
        MC_CHECK(hash_elem_get_key(e) == ent.first && hash_elem_get_value(e) == ent.second, "the wrong association was handed back");
        if (held) { check_held(); destroy_hash_element(held); }
        held = e; heldent = ent;
    }
    void walk(int w)
    {
        std::set<int> seen;
        for (hash_elem_t *e = hash_table_get_any(t[w]); e; e = hash_table_get_other(e)) {
            int id = -1;
            for (auto &p : m[w]) if (p.second.first == hash_elem_get_key(e) && p.second.second == hash_elem_get_value(e)) id = p.first;
            MC_CHECK(id >= 0, "traversal yields an association that is not stored");
            MC_CHECK(seen.insert(id).second, "traversal visits an association twice");
        }
        MC_CHECK(seen.size() == m[w].size(), "traversal visits %zu of %zu associations", seen.size(), m[w].size());
        step(seen.size() + 1);
    }
    void get(int w, int id)
    {
        hash_elem_t *e = hash_table_get(t[w], key(id, 2));
        auto it = m[w].find(id);
        MC_CHECK((e != nullptr) == (it != m[w].end()), "lookup of %s key %d %s", it != m[w].end() ? "present" : "absent", id, e ? "yields an element" : "yields nothing");
        if (e) MC_CHECK(hash_elem_get_key(e) == it->second.first && hash_elem_get_value(e) == it->second.second, "lookup of key %d yields the wrong association", id);
        step();
    }
    void apply(uint16_t op) override
    {
        int k = op >> 12, w = op >> 11 & 1, id = op >> 6 & 31, o = op >> 4 & 3, v = op & 15;
        auto it = m[w].find(id);
        step();
        switch (k) {
            case PUT: {
                hash_elem_t *e = hash_table_put(t[w], key(id, o), val(v));
                if (it == m[w].end()) { MC_CHECK(!e, "put under a new key returned an element"); m[w][id] = {key(id, o), val(v)}; }
                else if (it->second.second == val(v)) MC_CHECK(!e, "put of the value already stored returned an element");
                else {
                    MC_CHECK(e, "put under a present key did not hand back the old association");
                    Ent old = it->second;
                    it->second = {key(id, o), val(v)};
                    dispose(e, old);
                }
                break;
            }
            case POP: {
                hash_elem_t *e = hash_table_pop(t[w], key(id, 2));
                MC_CHECK((e != nullptr) == (it != m[w].end()), "pop of %s key %s", it != m[w].end() ? "a present" : "an absent", e ? "returned an element" : "returned nothing");
                if (e) { Ent ent = it->second; m[w].erase(it); dispose(e, ent); }
                break;
            }
            case DETACH: case REMOVE: {
                hash_elem_t *e = hash_table_get(t[w], key(id, 2));
                MC_CHECK(e && hash_elem_get_key(e) == it->second.first, "lookup before detaching failed");
                Ent ent = it->second; m[w].erase(it);
                if (k == DETACH) { hash_table_detach(t[w], e); dispose(e, ent); }
                else hash_table_remove(t[w], e);
                break;
            }
            case POPANY: {
                hash_elem_t *e = hash_table_pop_any(t[w]);
                MC_CHECK((e != nullptr) == !m[w].empty(), "popping any element from a table of %zu %s", m[w].size(), e ? "returned an element" : "returned nothing");
                if (e) {
                    bool found = false;
                    for (auto i = m[w].begin(); i != m[w].end(); ++i)
                        if (i->second.first == hash_elem_get_key(e) && i->second.second == hash_elem_get_value(e)) { Ent ent = i->second; m[w].erase(i); dispose(e, ent); found = true; break; }
                    MC_CHECK(found, "the popped association was not stored");
                }
                break;
            }
            case GET: get(w, id); break;
            case WALK: walk(w); break;
        }
        outcome(k * 100 + m[w].size());
    }
    void check() override
    {
        for (int w = 0; w < T; w++) {
            MC_CHECK(hash_table_size(t[w]) == m[w].size(), "size is %zu, expected %zu", hash_table_size(t[w]), m[w].size());
            MC_CHECK((hash_table_empty(t[w]) != 0) == m[w].empty(), "emptiness wrong with %zu elements", m[w].size());
            walk(w);
            for (int id = 0; id <= K; id++) get(w, id);
        }
        check_held();
    }
    void canon(Canon &c) override { for (int w = 0; w < T; w++) c.root(t[w]); c.add(held != nullptr); }
    void finish() override
    {
        for (int w = 0; w < T; w++) destroy_hash_table(t[w]);
        if (held) { check_held(); destroy_hash_element(held); held = nullptr; }
    }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"put", "pop", "detach", "remove", "pop_any", "get", "walk"};
        char b[80]; snprintf(b, sizeof b, "%s[%d](key %d/%d, value %d)", N[op >> 12], op >> 11 & 1, op >> 6 & 31, op >> 4 & 3, op & 15);
        return b;
    }
    std::string confname(int c) override { return "capacity " + std::to_string(CAPS[c / NKINDS]) + ", hash kind " + std::to_string(c % NKINDS); }
};

// Scripted histories over many capacities and sizes.
void ladder(const uint8_t *p, size_t)
{
    size_t cap = getv<uint64_t>(p); uint32_t n = getv<uint32_t>(p); hash_kind = *p;
    arena_limit = (size_t)3 << 30;
    std::vector<Key> ks(n), dup(n);
    std::vector<char> v1(n), v2(n);
    std::vector<int> state(n, 0);                      // 0 absent, 1 first, 2 replaced
    for (uint32_t i = 0; i < n; i++) ks[i].id = dup[i].id = i;
    hash_table_t *t = make_hash_table(cap, khash, kcmp);
    size_t count = 0;
    auto verify = [&](const char *when) {
        MC_CHECK(hash_table_size(t) == count && (hash_table_empty(t) != 0) == (count == 0), "%s: size %zu, expected %zu", when, hash_table_size(t), count);
        std::vector<char> seen(n, 0); size_t c = 0;
        for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e), c++) {
            const Key *k = (const Key *)hash_elem_get_key(e);
            uint64_t id = k->id;
            MC_CHECK(id < n && state[id], "%s: traversal yields a foreign association", when);
            MC_CHECK(k == (state[id] == 1 ? &ks[id] : &dup[id]) && hash_elem_get_value(e) == (state[id] == 1 ? &v1[id] : &v2[id]), "%s: traversal yields an outdated association", when);
            MC_CHECK(!seen[id], "%s: traversal visits key %llu twice", when, (unsigned long long)id);
            seen[id] = 1;
        }
        MC_CHECK(c == count, "%s: traversal visits %zu of %zu", when, c, count);
        Key probe = {0, 0};
        for (uint32_t i = 0; i < n; i++) {
            probe.id = i;
            hash_elem_t *e = hash_table_get(t, &probe);
            MC_CHECK((e != nullptr) == (state[i] != 0), "%s: lookup of key %u wrong", when, i);
            if (e) MC_CHECK(hash_elem_get_value(e) == (state[i] == 1 ? &v1[i] : &v2[i]), "%s: lookup of key %u yields a wrong value", when, i);
        }
        step(2 * n);
    };
    for (uint32_t i = 0; i < n; i++) { MC_CHECK(!hash_table_put(t, &ks[i], &v1[i]), "put under a new key returned an element"); state[i] = 1; count++; }
    verify("after inserting");
    for (uint32_t i = 0; i < n; i += 3) {
        hash_elem_t *e = hash_table_put(t, &dup[i], &v2[i]);
        MC_CHECK(e && hash_elem_get_key(e) == &ks[i] && hash_elem_get_value(e) == &v1[i], "put did not hand back the replaced association");
        destroy_hash_element(e); state[i] = 2;
    }
    verify("after replacing");
    for (uint32_t i = 1; i < n; i += 2) {
        hash_elem_t *e = hash_table_pop(t, &ks[i]);
        MC_CHECK(e && ((const Key *)hash_elem_get_key(e))->id == i, "pop returned the wrong association");
        destroy_hash_element(e); state[i] = 0; count--;
        if (i % 5 == 0) MC_CHECK(!hash_table_pop(t, &ks[i]), "pop of an absent key returned an element");
    }
    verify("after popping");
    for (uint32_t i = 0; i < n; i += 4) {
        hash_elem_t *e = hash_table_get(t, &ks[i]);
        MC_CHECK(e, "lookup failed");
        if (i % 8) hash_table_remove(t, e); else { hash_table_detach(t, e); destroy_hash_element(e); }
        state[i] = 0; count--;
    }
    verify("after removing");
    for (uint32_t i = 1; i < n; i += 3) {
        hash_elem_t *e = hash_table_put(t, &ks[i], &v1[i]);
        MC_CHECK((e != nullptr) == (state[i] == 2), "put returned the wrong thing");
        if (e) destroy_hash_element(e);
        count += state[i] == 0; state[i] = 1;
    }
    verify("after reinserting");
    size_t half = count / 2;
    while (count > half) {
        hash_elem_t *e = hash_table_pop_any(t);
        MC_CHECK(e, "pop_any returned nothing from a nonempty table");
        uint64_t id = ((const Key *)hash_elem_get_key(e))->id;
        MC_CHECK(id < n && state[id] && hash_elem_get_value(e) == (state[id] == 1 ? &v1[id] : &v2[id]), "pop_any returned a foreign association");
        destroy_hash_element(e); state[id] = 0; count--;
    }
    verify("after popping any");
    if (cap % 2) while (count) { hash_elem_t *e = hash_table_pop_any(t); MC_CHECK(e, "pop_any returned nothing"); state[((const Key *)hash_elem_get_key(e))->id] = 0; destroy_hash_element(e); count--; }
    verify("at the end");
    outcome(hash_kind * 16 + count % 7);
    destroy_hash_table(t);
    if (arena_strict && arena_live()) alloc_fail("%zu block(s) still allocated after everything was destroyed (%s)", arena_live(), arena_describe_live().c_str());
}
// Requests for huge capacities.  A bucket table of many gigabytes is laid over a small file mapped again and again,
// so buckets whose addresses are equal modulo WINDOW are the same memory: two keys in such buckets simply share a
// list.  Everything but the full traversal and the destruction works as in ordinary memory.
const size_t WINDOW = 64u << 20, HUGE_LIMIT = (size_t)40 << 30;
char *huge_at; size_t huge_size;
std::jmp_buf huge_out;
void *huge_realloc(void *p, size_t n)
{
    if (p && p == huge_at) { if (n) longjmp(huge_out, 1); return nullptr; }
    if (n <= (1u << 28)) return arena_realloc(p, n);
    if (p || huge_at || n > HUGE_LIMIT) longjmp(huge_out, 1);            // beyond any real machine: no verdict
    size_t span = (n + 4095) & ~(size_t)4095;
    char *m = (char *)mmap(nullptr, span + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int fd = memfd_create("window", 0);
    if (m == MAP_FAILED || fd < 0 || ftruncate(fd, WINDOW)) longjmp(huge_out, 1);
    for (size_t o = 0; o < span; o += WINDOW)
        if (mmap(m + 4096 + o, std::min(WINDOW, span - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) longjmp(huge_out, 1);
    close(fd);
    huge_at = m + 4096; huge_size = span;
    return huge_at;
}
void huge_case(const uint8_t *p, size_t)
{
    size_t cap = getv<uint64_t>(p); hash_kind = *p;
    const int n = 12;
    static Key ks[n], dup[n];
    static char v1[n], v2[n];
    for (int i = 0; i < n; i++) ks[i].id = dup[i].id = i;
    huge_at = nullptr; huge_size = 0;
    arena_limit = (size_t)1 << 30;
    fs_set_reallocator(huge_realloc);
    if (!setjmp(huge_out)) {
        hash_table_t *t = make_hash_table(cap, khash, kcmp);
        size_t count = 0; int st[n] = {};
        auto verify = [&] {
            MC_CHECK(hash_table_size(t) == count && (hash_table_empty(t) != 0) == (count == 0), "size %zu, expected %zu", hash_table_size(t), count);
            for (int i = 0; i < n; i++) {
                Key probe = {(uint64_t)i, 1};
                hash_elem_t *e = hash_table_get(t, &probe);
                MC_CHECK((e != nullptr) == (st[i] != 0), "lookup of key %d wrong", i);
                if (e) MC_CHECK(hash_elem_get_key(e) == (st[i] == 1 ? &ks[i] : &dup[i]) && hash_elem_get_value(e) == (st[i] == 1 ? &v1[i] : &v2[i]), "lookup of key %d yields an outdated association", i);
            }
            step(n + 1);
        };
        verify();
        for (int i = 0; i < n; i++) { MC_CHECK(!hash_table_put(t, &ks[i], &v1[i]), "put under a new key returned an element"); st[i] = 1; count++; verify(); }
        for (int i = 0; i < n; i += 2) {
            hash_elem_t *e = hash_table_put(t, &dup[i], &v2[i]);
            MC_CHECK(e && hash_elem_get_key(e) == &ks[i] && hash_elem_get_value(e) == &v1[i], "put did not hand back the replaced association");
            destroy_hash_element(e); st[i] = 2; verify();
        }
        for (int i = 0; i < n; i += 3) {
            hash_elem_t *e = hash_table_pop(t, &ks[i]);
            MC_CHECK(e && ((const Key *)hash_elem_get_key(e))->id == (uint64_t)i, "pop returned the wrong association");
            destroy_hash_element(e); st[i] = 0; count--; verify();
        }
        hash_table_remove(t, hash_table_get(t, &dup[4])); st[4] = 0; count--; verify();
        MC_CHECK(hash_table_get_any(t), "get_any returned nothing from a nonempty table");
        while (count) {
            hash_elem_t *e = hash_table_pop_any(t);
            MC_CHECK(e, "pop_any returned nothing from a nonempty table");
            uint64_t id = ((const Key *)hash_elem_get_key(e))->id;
            MC_CHECK(id < n && st[id], "pop_any returned a foreign association");
            destroy_hash_element(e); st[id] = 0; count--; verify();
        }
        outcome(hash_kind);
    } else outcome(100);
    fs_set_reallocator(arena_realloc);
    if (huge_at) munmap(huge_at - 4096, huge_size + 8192);
}
}
void hash_suites(std::vector<Suite> &out, bool alloc)
{
    Suite s;
    s.nconfigs = NKINDS * NCAPS;
    int m = alloc ? 3 : thorough ? 5 : 4;
    s.name = "hash-histories";
    s.bound = "all histories over " + std::to_string(m) + " keys (two key objects each) and 2 values (one NULL) under 9 hash functions x 4 capacities";
    s.make = [=] { return new Sys(m, alloc ? 1 : thorough ? 1 : 2, 2, 1, m, false, false); };
    s.time_share = 2;
    out.push_back(s);
    s.name = "hash-colliding";
    s.nconfigs = 1;                                   // kind 0, capacity 0: one bucket
    int c = alloc ? 4 : thorough ? 6 : 5;
    s.bound = "all histories over " + std::to_string(c) + " keys in a single bucket, 2 values";
    s.make = [=] { return new Sys(c, 1, 2, 1, c, false, false); };
    out.push_back(s);
    if (!alloc) {
        s.nconfigs = NKINDS;
        s.name = "hash-queries";
        s.bound = "all histories mixing lookups and traversals with mutations over 4 keys, 3 values";
        s.make = [=] { return new Sys(4, 1, 3, 1, 4, false, true); };
        out.push_back(s);
    }
    s.nconfigs = 1;
    s.name = "hash-integers";
    s.bound = "integer keys -1 (all ones), 0 (NULL), 1 ... with the library's own hash and comparator";
    s.make = [=] { return new Sys(alloc ? 4 : thorough ? 8 : 6, 1, 2, 1, 8, true, false); };
    out.push_back(s);
    s.name = "hash-two-tables";
    s.nconfigs = NKINDS;
    s.bound = "two tables sharing key and value objects";
    s.make = [=] { return new Sys(alloc ? 2 : 3, 1, 2, 2, 3, false, false); };
    out.push_back(s);
    Suite d;
    d.name = "hash-sizes";
    d.bound = "scripted fill/replace/pop/remove/refill/pop_any histories, capacities around every table size up to 2^20, element counts up to 70000, 9 hash functions";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        std::vector<uint64_t> caps = {0, 1, 2, 10, 52, 53, 54, 60, 96, 97, 98, 192, 193, 194, 388, 389, 390, 769, 770, 1543, 1544, 3079, 3080, 6151, 6152, 12289, 12290, 24593, 24594, 49157, 49158};
        if (!alloc) for (uint64_t c : {98317, 98318, 196613, 196614, 393241, 786433, 786434}) caps.push_back(c);
        if (thorough) for (uint64_t c : {1572869, 3145739, 6291469}) caps.push_back(c);
        std::vector<uint32_t> ns;
        for (uint32_t n = 0; n <= 24; n++) ns.push_back(n);
        for (uint32_t n : {52, 53, 54, 96, 97, 98, 107, 150, 194, 256, 400}) ns.push_back(n);
        if (!alloc) for (uint32_t n : {800, 1600, 2500, 8200, 70000}) ns.push_back(n);
        for (auto c : caps) for (auto n : ns) for (int k = 0; k < NKINDS; k++) {
            if (c > 50000 && n != 2500 && n != 5) continue;
            if (n > 2500 && c != 53 && c != 24593 && c != 49157) continue;
            if (n > 2500 && (k == 0 || k == 4 || k == 5 || k == 8 || (n == 70000 && c == 53))) continue;
            if ((k == 0 || k == 5 || k == 8) && n > 400 && c != 53) continue;
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, c); putv(v, n); v.push_back(k); e.run(v.data(), v.size()); }
        }
    };
    d.exec = ladder;
    d.describe = [](const uint8_t *p, size_t) { auto c = getv<uint64_t>(p); auto n = getv<uint32_t>(p); return "capacity " + std::to_string(c) + ", " + std::to_string(n) + " keys, hash kind " + std::to_string(*p); };
    out.push_back(d);
    if (!alloc) {
        d.name = "hash-huge-capacities";
        d.bound = "scripted put/get/replace/pop/remove/pop_any histories of 12 keys in tables of requested capacities from 2^25 to SIZE_MAX";
        d.hang = 12;
        d.enumerate = [](Enum &e) {
            uint64_t i = 0;
            std::vector<std::pair<uint64_t, int>> cs = {{805306458, 1}, {SIZE_MAX, 3}, {1610612742, 6}, {1ull << 32, 1}, {201326612, 6}, {25165844, 3}, {100663320, 1}, {402653190, 1}};
            if (thorough) for (uint64_t c : {(uint64_t)50331653, (uint64_t)50331654, (uint64_t)402653189, (uint64_t)805306457, (uint64_t)1610612741, ((uint64_t)1 << 32) + 1, (uint64_t)1 << 61, (uint64_t)1 << 63, UINT64_MAX / 8 + 2}) for (int k : {0, 1, 3, 6}) cs.push_back({c, k});
            for (auto &c : cs) if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, c.first); v.push_back(c.second); e.run(v.data(), v.size()); }
        };
        d.exec = huge_case;
        d.describe = [](const uint8_t *p, size_t) { auto c = getv<uint64_t>(p); return "requested capacity " + std::to_string(c) + ", hash kind " + std::to_string(*p); };
        out.push_back(d);
    }
}
#ifndef MC_COMBINED
namespace mc { void suites(std::vector<Suite> &out) { hash_suites(out, false); } }
#endif
