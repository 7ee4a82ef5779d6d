#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include "fsalloc.h"
extern "C" {
void __asan_poison_memory_region(void const volatile *addr, size_t size) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *addr, size_t size) __attribute__((weak));
extern char __start_fsdyn_data[] __attribute__((weak));
extern char __stop_fsdyn_data[] __attribute__((weak));
}
#define NOSAN __attribute__((no_sanitize_address, noinline))

namespace mc {
std::string prop;
bool thorough;
uint8_t arena_fill = 0xA5;
bool arena_strict;
size_t arena_limit = 64u << 20;
uint64_t foreign_allocs;
bool foreign_forbidden;
bool track_globals = true;
fs_realloc_t initial_reallocator;

static double now()
{
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------ shared memory
struct Shared {
    volatile uint64_t beat;
    volatile uint32_t done, violated, stopped;
    uint64_t cases, steps, newrec;
    uint32_t noutcomes;
    uint64_t outcomes[4096];
    char msg[8192];
    uint32_t case_len;
    uint8_t case_bytes[1 << 16];
    uint32_t cur_len; uint8_t cur[512];
    uint32_t nsamples, sample_len[4];
    uint8_t sample[4][256];
};
static Shared *sh;              // this worker's slot
static Shared dummy_sh_storage;
static double deadline;         // absolute
static bool replaying;
static std::unordered_set<uint64_t> *outcome_set;
static std::string scratch = ".";

bool only_alloc;
void fail(const char *fmt, ...)
{
    if (only_alloc) throw Prune();
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    sh->violated = 1;
    _exit(10);
}
void alloc_fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    sh->violated = 1;
    _exit(10);
}
void outcome(uint64_t cls)
{
    if (outcome_set && outcome_set->size() < 4096 && outcome_set->insert(cls).second)
        if (sh->noutcomes < 4096) sh->outcomes[sh->noutcomes++] = cls;
}
void step(uint64_t n) { sh->steps += n; }
void current(const void *p, size_t n)
{
    if (n > sizeof sh->cur) n = sizeof sh->cur;
    memcpy(sh->cur, p, n);
    sh->cur_len = n;
    sh->beat = sh->beat + 1;
}
bool expired()
{
    if (replaying || now() <= deadline) return false;
    sh->stopped = 1;
    return true;
}

std::string hex(const void *p, size_t n)
{
    std::string s; char b[4];
    for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", ((const uint8_t *)p)[i]); s += b; }
    return s;
}
std::string quote(const std::string &x)
{
    std::string s = "\""; char b[8];
    for (unsigned char c : x)
        if (c >= 32 && c < 127 && c != '"' && c != '\\') s += c;
        else { snprintf(b, sizeof b, "\\x%02x", c); s += b; }
    return s + "\"";
}

// ------------------------------------------------------------------- arena
struct Blk { char *p; size_t n; bool live; };
static const size_t ARENA = (size_t)6 << 30;
static char *abase, *acur;
static std::vector<Blk> blks;
static size_t nlive, acalls, alast;

static void poison(const void *p, size_t n) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, n); }
static void unpoison(const void *p, size_t n) { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n); }

static void arena_init()
{
    abase = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (abase == MAP_FAILED) { perror("mmap"); _exit(3); }
    acur = abase;
    blks.reserve(4096);
}
void arena_reset()
{
    size_t used = acur - abase;
    if (used) {
        if (used > (8u << 20)) madvise(abase, used, MADV_DONTNEED);
        poison(abase, (used + 4095) & ~4095ul);
    }
    acur = abase + 64;
    if (!used) poison(abase, 4096);
    blks.clear(); nlive = acalls = 0; alast = 0;
}
static Blk *find_blk(const void *p)
{
    size_t lo = 0, hi = blks.size();
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (blks[m].p + blks[m].n + 15 < (const char *)p) lo = m + 1; else hi = m;
    }
    if (lo < blks.size() && blks[lo].p <= (const char *)p && (const char *)p <= blks[lo].p + blks[lo].n) return &blks[lo];
    return nullptr;
}
static char *arena_take(size_t n)
{
    if (n > arena_limit || (size_t)(acur - abase) + n > arena_limit)
        alloc_fail("runaway allocation: request of %zu bytes after %zu in use (limit %zu)", n, (size_t)(acur - abase), arena_limit);
    char *p = acur;
    size_t span = (n + 16 + 15) & ~15ul;
    // the page(s) ahead are poisoned lazily
    poison(p, span + 256);
    unpoison(p, n);
    memset(p, arena_fill, n);
    acur += span;
    blks.push_back({p, n, true});
    nlive++;
    alast = n;
    return p;
}
void *arena_realloc(void *ptr, size_t size)
{
    acalls++;
    Blk *b = nullptr;
    if (ptr) {
        b = find_blk(ptr);
        if (!b || b->p != ptr) alloc_fail("release or resize of %p, which is not an allocated block", ptr);
        if (!b->live) alloc_fail("block of %zu bytes released or resized twice", b->n);
    }
    if (size == 0) {
        if (b) { b->live = false; nlive--; poison(b->p, (b->n + 7) & ~7ul); }
        return nullptr;
    }
    if (!b) return arena_take(size);
    char *old = b->p; size_t oldn = b->n;
    char *p = arena_take(size);                  // always moves
    memcpy(p, old, oldn < size ? oldn : size);
    b = find_blk(old);
    b->live = false; nlive--;
    poison(old, (oldn + 7) & ~7ul);
    return p;
}
size_t arena_live() { return nlive; }
size_t arena_calls() { return acalls; }
size_t arena_last_size() { return alast; }
bool arena_is_live(const void *p) { Blk *b = find_blk(p); return b && b->p == p && b->live; }
size_t arena_block_size(const void *p) { Blk *b = find_blk(p); return b ? b->n : 0; }
std::string arena_describe_live()
{
    std::string s;
    int k = 0;
    for (auto &b : blks) if (b.live && k++ < 8) s += (s.empty() ? "" : ", ") + std::to_string(b.n) + " bytes";
    return s;
}

bool arena_contains(const void *p) { return p >= abase && p < acur; }
void arena_hash_sizes(Hasher &h)
{
    uint64_t sum = 0, mix = 0;
    for (auto &b : blks) if (b.live) { Hasher x; x.add(b.n); sum += x.a; mix += x.b; }
    h.add(sum); h.add(mix);
}

// ------------------------------------------------------------------ globals
static char *gsnap; static size_t gsize;
static void NOSAN rawcopy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = ((const volatile char *)s)[i]; }
static bool __attribute__((no_sanitize_address, noinline, optimize("O3"))) rawdiff(const char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && ((uintptr_t)(d + i) & 7); i++) if (d[i] != s[i]) return true;
    typedef uint64_t __attribute__((may_alias, aligned(1))) W;
    while (n - i >= 2048) {
        uint64_t acc = 0;
        const W *x = (const W *)(d + i), *y = (const W *)(s + i);
        for (int k = 0; k < 256; k++) acc |= x[k] ^ y[k];
        if (acc) return true;
        i += 2048;
    }
    for (; i < n; i++) if (d[i] != s[i]) return true;
    return false;
}
static void globals_snapshot()
{
    if (!__start_fsdyn_data) return;
    gsize = __stop_fsdyn_data - __start_fsdyn_data;
    gsnap = (char *)mmap(nullptr, gsize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rawcopy(gsnap, __start_fsdyn_data, gsize);
}
bool globals_changed() { return gsize && rawdiff(__start_fsdyn_data, gsnap, gsize); }
void globals_restore()
{
    if (gsize && rawdiff(__start_fsdyn_data, gsnap, gsize)) rawcopy(__start_fsdyn_data, gsnap, gsize);
}

// ------------------------------------------------------------ canonical heap
static void NOSAN hash_raw(Canon &c, const char *p, size_t n, std::vector<int> &num, std::vector<int> &queue)
{
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t w = *(const volatile uint64_t *)(p + i);
        if (w >= (uint64_t)abase && w < (uint64_t)acur) {
            Blk *b = find_blk((void *)w);
            if (!b || !b->live) { c.h.add(0x57A1Eull << 40); continue; }
            int k = b - blks.data();
            if (num[k] < 0) { num[k] = queue.size(); queue.push_back(k); }
            c.h.add(0xB10Cull << 48 | (uint64_t)num[k] << 24 | (w - (uint64_t)b->p));
            continue;
        }
        uint64_t out;
        if (w && c.map && c.map(w, out)) { c.h.add(0x0B3Full << 48 ^ out); continue; }
        c.h.add(w);
    }
    uint64_t t = 0;
    for (; i < n; i++) t = t << 8 | (uint8_t)((const volatile char *)p)[i];
    c.h.add(t ^ (uint64_t)n << 56);
}
Hash Canon::finish()
{
    std::vector<int> num(blks.size(), -1), queue;
    for (auto r : roots) {
        Blk *b = r ? find_blk(r) : nullptr;
        if (!b || !b->live) { h.add(r ? 1 : 0); continue; }
        int k = b - blks.data();
        if (num[k] < 0) { num[k] = queue.size(); queue.push_back(k); }
        h.add(0xB10Cull << 48 | (uint64_t)num[k] << 24 | ((const char *)r - b->p));
    }
    for (size_t i = 0; i < queue.size(); i++) {
        const Blk b = blks[queue[i]];
        h.add(b.n);
        hash_raw(*this, b.p, b.n, num, queue);
    }
    if (track_globals && gsize && globals_changed()) {
        hash_raw(*this, __start_fsdyn_data, gsize, num, queue);
        for (size_t i = 0; i < queue.size(); i++) h.add(blks[queue[i]].n);
    }
    h.add(nlive);
    return {h.a, h.b};
}

// ------------------------------------------------------------------- guards
Guard::Guard(size_t pages)
{
    size_t P = 4096;
    char *m = (char *)mmap(nullptr, (pages + 2) * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(m + P, pages * P, PROT_READ | PROT_WRITE);
    lo = m + P; hi = lo + pages * P;
}

// ---------------------------------------------------------------- execution
struct Stop {};
static uint32_t tick;
static inline void check_deadline()
{
    if (replaying) return;
    if ((++tick & 0xff) == 0 && now() > deadline) { sh->stopped = 1; throw Stop(); }
}

static void prepare_trace()
{
    globals_restore();
    arena_reset();
}

static void set_case(const void *bytes, size_t len)
{
    if (len > sizeof sh->case_bytes) len = sizeof sh->case_bytes;
    memcpy(sh->case_bytes, bytes, len);
    sh->case_len = len;
    sh->cur_len = 0;
    sh->beat = sh->beat + 1;
}
void Enum::run(const void *bytes, size_t len)
{
    check_deadline();
    set_case(bytes, len);
    prepare_trace();
    try { suite->exec((const uint8_t *)bytes, len); } catch (Prune &) {}
    sh->cases++;
    if (sh->nsamples < 2 && (sh->cases & 0x3ff) == 0x155) {
        int k = sh->nsamples++;
        sh->sample_len[k] = len < 256 ? len : 256;
        memcpy(sh->sample[k], bytes, sh->sample_len[k]);
    }
}

struct Node { uint32_t parent; uint16_t op; uint8_t config; uint8_t depth; };
struct Rec { Hash h; uint32_t parent; uint16_t op; uint16_t pad; };

static void exec_history(System &s, int config, const std::vector<uint16_t> &ops)
{
    prepare_trace();
    s.start(config);
    for (auto o : ops) s.apply(o);
}
static void finish_checked(System &s)
{
    s.finish();
    if (arena_strict && nlive)
        alloc_fail("%zu block(s) still allocated after everything was destroyed (%s)", nlive, arena_describe_live().c_str());
}
static std::vector<uint8_t> encode(int config, const std::vector<uint16_t> &ops)
{
    std::vector<uint8_t> v; put16(v, config);
    for (auto o : ops) put16(v, o);
    return v;
}
static void exec_bfs_case(Suite &su, const uint8_t *p, size_t n)
{
    System *s = su.make();
    int config = get16(p);
    std::vector<uint16_t> ops;
    for (size_t i = 2; i + 1 < n; i += 2) ops.push_back(get16(p + i));
    exec_history(*s, config, ops);
    { Canon c; s->canon(c); c.finish(); }
    s->check();
    finish_checked(*s);
    delete s;
}
static std::string describe_case(Suite &su, const uint8_t *p, size_t n)
{
    if (!su.make) return su.describe ? su.describe(p, n) : hex(p, n);
    System *s = su.make();
    std::string r = "configuration " + s->confname(get16(p)) + ":";
    for (size_t i = 2; i + 1 < n; i += 2) r += " " + s->opname(get16(p + i)) + ";";
    return r;
}

// ------------------------------------------------------------------- master
static int NW = 8;
static Shared *slots;
static std::vector<std::string> errfiles;
struct Result {
    uint64_t states = 0, transitions = 0, cases = 0, steps = 0, outcomes = 0;
    int depth = 0; bool exhaustive = true; double wall = 0;
    std::vector<std::string> samples;
    std::string note;
};
struct Finding { bool found = false, unconfirmed = false; std::vector<uint8_t> bytes; std::string msg; };

static double cpu_of(pid_t pid)
{
    char f[64]; snprintf(f, sizeof f, "/proc/%d/stat", (int)pid);
    FILE *fp = fopen(f, "r"); if (!fp) return 0;
    char buf[1024]; size_t k = fread(buf, 1, sizeof buf - 1, fp); fclose(fp); buf[k] = 0;
    char *q = strrchr(buf, ')'); if (!q) return 0;
    unsigned long ut = 0, st = 0;
    sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    return (ut + st) / (double)sysconf(_SC_CLK_TCK);
}
static void child_setup(int w, bool quiet)
{
    sh = &slots[w];
    outcome_set = new std::unordered_set<uint64_t>;
    std::string f = scratch + "/worker" + std::to_string(w) + ".err";
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); close(dn); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    (void)quiet;
}
static std::string at_input(const Shared &s)
{
    if (!s.cur_len) return "";
    return " on input " + quote(std::string((const char *)s.cur, s.cur_len));
}
static std::string read_err(int w)
{
    std::string f = scratch + "/worker" + std::to_string(w) + ".err", r;
    FILE *fp = fopen(f.c_str(), "r"); if (!fp) return r;
    char b[4096]; size_t k = fread(b, 1, sizeof b, fp); fclose(fp);
    r.assign(b, k);
    return r;
}
// Run the workers to completion. Returns the finding, if any.
// CPU seconds without progress that count as non-termination (normal gaps are below 2)
static double hang_limit() { return thorough ? 60 : 20; }
static double longest_gap;
static Finding run_workers(const std::function<void(int)> &body, double hang_cpu, int nworkers)
{
    Finding f;
    for (int i = 0; i < nworkers; i++) {
        Shared &s = slots[i];
        s.beat = 0; s.done = s.violated = s.stopped = 0; s.cases = s.steps = s.newrec = 0;
        s.noutcomes = 0; s.case_len = 0; s.cur_len = 0; s.nsamples = 0; s.msg[0] = 0;
    }
    std::vector<pid_t> pid(nworkers);
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < nworkers; i++) {
        pid[i] = fork();
        if (pid[i] < 0) { perror("fork"); exit(3); }
        if (pid[i] == 0) {
            child_setup(i, true);
            try { body(i); } catch (Stop &) { sh->stopped = 1; } catch (Prune &) {}
            sh->done = 1;
            _exit(0);
        }
    }
    std::vector<uint64_t> lastbeat(nworkers, 0);
    std::vector<double> lastcpu(nworkers, 0);
    int left = nworkers, iter = 0;
    while (left) {
        bool any = false;
        for (int i = 0; i < nworkers; i++) {
            if (pid[i] <= 0) continue;
            int st;
            pid_t r = waitpid(pid[i], &st, WNOHANG);
            if (r == pid[i]) {
                any = true;
                pid[i] = 0; left--;
                if (slots[i].done && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (!f.found) {
                    f.found = true;
                    f.bytes.assign(slots[i].case_bytes, slots[i].case_bytes + slots[i].case_len);
                    if (slots[i].violated) f.msg = slots[i].msg;
                    else {
                        char b[128];
                        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "the library crashed (signal %d: %s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                        else snprintf(b, sizeof b, "the library ended the process or a memory error was detected (exit %d)", WEXITSTATUS(st));
                        f.msg = std::string(b) + at_input(slots[i]) + "\n" + read_err(i);
                    }
                    for (int j = 0; j < nworkers; j++) if (pid[j] > 0) kill(pid[j], SIGKILL);
                }
            }
        }
        if (!any) {
            usleep(iter < 50 ? 1000 : 10000);
            if (++iter % 50 == 0)
                for (int i = 0; i < nworkers; i++) if (pid[i] > 0) {
                    double c = cpu_of(pid[i]);
                    uint64_t beat = slots[i].beat + *(volatile uint64_t *)&slots[i].steps;      // any progress
                    longest_gap = std::max(longest_gap, c - lastcpu[i]);
                    if (beat != lastbeat[i]) { lastbeat[i] = beat; lastcpu[i] = c; }
                    else if (c - lastcpu[i] > hang_cpu && !f.found) {
                        f.found = true;
                        f.bytes.assign(slots[i].case_bytes, slots[i].case_bytes + slots[i].case_len);
                        f.msg = "the operation does not terminate" + at_input(slots[i]);
                        for (int j = 0; j < nworkers; j++) if (pid[j] > 0) kill(pid[j], SIGKILL);
                    }
                }
        }
    }
    return f;
}
static Finding replay_case(Suite &su, const std::vector<uint8_t> &bytes, double hang_cpu)
{
    return run_workers([&](int) {
        replaying = true;
        set_case(bytes.data(), bytes.size());
        if (su.make) { try { exec_bfs_case(su, bytes.data(), bytes.size()); } catch (Prune &) {} }
        else { prepare_trace(); try { su.exec(bytes.data(), bytes.size()); } catch (Prune &) {} }
    }, hang_cpu, 1);
}
static void collect(Result &r, int nworkers, std::unordered_set<uint64_t> &oc, Suite &su)
{
    for (int i = 0; i < nworkers; i++) {
        r.cases += slots[i].cases; r.steps += slots[i].steps;
        if (slots[i].stopped) r.exhaustive = false;
        for (uint32_t k = 0; k < slots[i].noutcomes; k++) oc.insert(slots[i].outcomes[k]);
        for (uint32_t k = 0; k < slots[i].nsamples && r.samples.size() < 3; k++)
            r.samples.push_back(describe_case(su, slots[i].sample[k], slots[i].sample_len[k]));
    }
    r.outcomes = oc.size();
}
struct HashFn { size_t operator()(const Hash &h) const { return h.a; } };
struct HashEq { bool operator()(const Hash &x, const Hash &y) const { return x.a == y.a && x.b == y.b; } };

static Finding run_bfs(Suite &su, Result &r, std::unordered_set<uint64_t> &oc, double suite_deadline)
{
    deadline = suite_deadline;
    std::vector<Node> nodes;
    std::unordered_set<Hash, HashFn, HashEq> seen;
    static const size_t RECCAP = 24u << 20;      // records per worker and level
    std::vector<Rec *> recs(NW);
    for (auto &p : recs) p = (Rec *)mmap(nullptr, RECCAP * sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<uint32_t> frontier;
    // level 0: the start states, hashed by a worker
    Finding f = run_workers([&](int) {
        for (int c = 0; c < su.nconfigs; c++) {
            std::vector<uint8_t> v = encode(c, {});
            set_case(v.data(), v.size());
            System *s = su.make();
            exec_history(*s, c, {});
            Canon cn; cn.add(c); s->canon(cn); Hash h = cn.finish();
            s->check(); finish_checked(*s);
            delete s;
            recs[0][sh->newrec++] = {h, (uint32_t)c, 0, 0};
            sh->cases++;
        }
    }, su.hang * hang_limit(), 1);
    if (f.found) return f;
    for (uint64_t i = 0; i < slots[0].newrec; i++)
        if (seen.insert(recs[0][i].h).second) {
            frontier.push_back(nodes.size());
            nodes.push_back({0xffffffffu, 0, (uint8_t)recs[0][i].parent, 0});
        }
    r.cases += slots[0].cases;
    int depth = 0;
    bool capped = false;
    while (!frontier.empty() && depth < su.max_depth) {
        if (now() > deadline || nodes.size() > su.max_states) { r.exhaustive = false; break; }
        int nw = frontier.size() < 16 ? 1 : NW;
        f = run_workers([&](int w) {
            System *s = su.make();
            std::unordered_set<Hash, HashFn, HashEq> local;
            std::vector<uint16_t> hist, ops;
            for (size_t fi = w; fi < frontier.size(); fi += nw) {
                uint32_t id = frontier[fi];
                hist.clear();
                for (uint32_t k = id; nodes[k].parent != 0xffffffffu; k = nodes[k].parent) hist.push_back(nodes[k].op);
                std::reverse(hist.begin(), hist.end());
                int config = nodes[id].config;
                std::vector<uint8_t> v = encode(config, hist);
                set_case(v.data(), v.size());
                try {
                    exec_history(*s, config, hist);
                    ops.clear();
                    s->ops(ops);
                    s->finish();
                } catch (Prune &) { continue; }
                hist.push_back(0);
                v.resize(v.size() + 2);
                for (uint16_t o : ops) {
                    check_deadline();
                    hist.back() = o;
                    v[v.size() - 2] = o & 255; v[v.size() - 1] = o >> 8;
                    set_case(v.data(), v.size());
                    try {
                        exec_history(*s, config, hist);
                        Canon cn; cn.add(config); s->canon(cn); Hash h = cn.finish();
                        s->check();
                        finish_checked(*s);
                        sh->cases++;
                        if (!seen.count(h) && local.insert(h).second) {
                            if (sh->newrec >= RECCAP) { sh->stopped = 1; throw Stop(); }
                            recs[w][sh->newrec++] = {h, id, o, 0};
                        }
                    } catch (Prune &) {}
                    if (sh->nsamples < 2 && (sh->cases % 509) == 255) {
                        int k = sh->nsamples++;
                        sh->sample_len[k] = v.size() < 256 ? v.size() : 256;
                        memcpy(sh->sample[k], v.data(), sh->sample_len[k]);
                    }
                }
            }
        }, su.hang * hang_limit(), nw);
        if (f.found) return f;
        r.samples.clear();
        collect(r, nw, oc, su);
        std::vector<uint32_t> next;
        for (int w = 0; w < nw; w++)
            for (uint64_t i = 0; i < slots[w].newrec; i++) {
                Rec &x = recs[w][i];
                if (!seen.insert(x.h).second) continue;
                next.push_back(nodes.size());
                nodes.push_back({x.parent, x.op, nodes[x.parent].config, 0});
            }
        // deterministic order: by parent then op
        std::sort(next.begin(), next.end(), [&](uint32_t a, uint32_t b) {
            return nodes[a].parent != nodes[b].parent ? nodes[a].parent < nodes[b].parent : nodes[a].op < nodes[b].op; });
        if (!r.exhaustive) { capped = true; }
        depth++;
        r.depth = depth;
        frontier.swap(next);
        if (capped) break;
    }
    if (!frontier.empty() && depth >= su.max_depth && su.max_depth < (1 << 29)) r.note = "depth bound reached";
    r.states = nodes.size();
    r.transitions = r.cases;
    for (auto p : recs) munmap(p, RECCAP * sizeof(Rec));
    return f;
}
static std::string jstr(const std::string &s)
{
    std::string o = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static int master(int argc, char **argv)
{
    // args: PROP TIER SCRATCH BUDGET OUT.json [REPLAY-FILE]
    if (argc < 6) { fprintf(stderr, "usage\n"); return 3; }
    prop = argv[1];
    thorough = !strcmp(argv[2], "thorough");
    scratch = argv[3];
    double budget = atof(argv[4]);
    if (getenv("MC_WORKERS")) NW = atoi(getenv("MC_WORKERS"));
    double t_end = now() + budget;
    slots = (Shared *)mmap(nullptr, NW * sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh = &dummy_sh_storage;
    arena_init();
    initial_reallocator = fs_get_reallocator();
    fs_set_reallocator(arena_realloc);
    globals_snapshot();
    std::vector<Suite> su;
    suites(su);
    if (argc > 6) {             // replay
        FILE *fp = fopen(argv[6], "r"); if (!fp) { perror(argv[6]); return 3; }
        char line[1 << 18]; std::string name; std::vector<uint8_t> bytes;
        while (fgets(line, sizeof line, fp)) {
            if (!strncmp(line, "suite: ", 7)) { name = line + 7; name.pop_back(); }
            if (!strncmp(line, "case: ", 6))
                for (char *q = line + 6; q[0] > ' ' && q[1] > ' '; q += 2) { unsigned x; sscanf(q, "%2x", &x); bytes.push_back(x); }
        }
        fclose(fp);
        for (auto &s : su) if (s.name == name) {
            printf("replaying: %s\n", describe_case(s, bytes.data(), bytes.size()).c_str());
            Finding f = replay_case(s, bytes, s.hang * hang_limit());
            if (f.found) { printf("REPRODUCED %s\n", f.msg.c_str()); return 1; }
            printf("not reproduced\n");
            return 0;
        }
        fprintf(stderr, "no suite %s\n", name.c_str());
        return 3;
    }
    std::string js = "{\"suites\": [";
    int rc = 0;
    bool first = true;
    std::string viol;
    const char *only = getenv("MC_SUITE");
    for (size_t k = 0; k < su.size() && !rc; k++) {
        Suite &s = su[k];
        if (only && s.name.find(only) == std::string::npos) continue;
        double t0 = now();
        double remaining = t_end - t0;
        double later = 0; for (size_t j = k; j < su.size(); j++) later += su[j].time_share;
        double dl = t0 + std::max(1.0, remaining * (later > 0 ? std::min(1.0, 2.0 * s.time_share / later) : 1));
        if (dl > t_end && t_end > t0 + 1) dl = t_end;
        Result r; std::unordered_set<uint64_t> oc;
        Finding f;
        if (s.make) f = run_bfs(s, r, oc, dl);
        else {
            deadline = dl;
            f = run_workers([&](int w) { Enum e; e.shard = w; e.nshards = NW; e.suite = &s; s.enumerate(e); }, s.hang * hang_limit(), NW);
            if (!f.found) collect(r, NW, oc, s);
            if (r.steps > r.cases) r.cases = r.steps;     // a case may be a batch of inputs
            r.states = r.cases; r.transitions = r.cases;
        }
        if (f.found) {
            std::string msg = f.msg;
            Finding g = replay_case(s, f.bytes, s.hang * hang_limit());
            if (g.found) { Finding h = replay_case(s, f.bytes, s.hang * hang_limit()); if (!h.found) g.found = false; else msg = h.msg; }
            if (!g.found) {
                r.exhaustive = false;
                r.note = "unconfirmed on replay, not reported: " + msg.substr(0, 300) + " case " + hex(f.bytes.data(), std::min<size_t>(f.bytes.size(), 60));
                fprintf(stderr, "%s: %s\n", s.name.c_str(), r.note.c_str());
            } else {
                std::string path = scratch + "/violation.txt";
                FILE *fp = fopen(path.c_str(), "w");
                fprintf(fp, "property: %s\nsuite: %s\ncase: %s\nhistory: %s\nwhat: %s\n", prop.c_str(), s.name.c_str(),
                        hex(f.bytes.data(), f.bytes.size()).c_str(), describe_case(s, f.bytes.data(), f.bytes.size()).c_str(), msg.c_str());
                fclose(fp);
                printf("violation in suite %s\n  %s\n  %s\n", s.name.c_str(), describe_case(s, f.bytes.data(), f.bytes.size()).c_str(), msg.c_str());
                rc = 1;
            }
        }
        r.wall = now() - t0;
        if (getenv("MC_VERBOSE") || isatty(1))
            fprintf(stderr, "%-28s states=%llu transitions=%llu executions=%llu outcomes=%llu depth=%d exhaustive=%d %.1fs gap %.2f %s\n", s.name.c_str(),
                    (unsigned long long)r.states, (unsigned long long)r.transitions, (unsigned long long)r.cases, (unsigned long long)r.outcomes, r.depth, (int)r.exhaustive, r.wall, longest_gap, r.note.c_str());
        longest_gap = 0;
        char b[512];
        snprintf(b, sizeof b, "%s\n{\"suite\": %s, \"kind\": \"%s\", \"states\": %llu, \"transitions\": %llu, \"executions\": %llu, \"distinct_outcomes\": %llu, \"depth\": %d, \"exhaustive\": %s, \"wall_s\": %.2f, ",
                 first ? "" : ",", jstr(s.name).c_str(), s.make ? "explicit-state search" : "input enumeration", (unsigned long long)r.states, (unsigned long long)r.transitions,
                 (unsigned long long)r.cases, (unsigned long long)r.outcomes, r.depth, r.exhaustive ? "true" : "false", r.wall);
        js += b; first = false;
        js += "\"bound\": " + jstr(s.bound) + ", \"note\": " + jstr(r.note) + ", \"samples\": [";
        for (size_t i = 0; i < r.samples.size(); i++) js += (i ? ", " : "") + jstr(r.samples[i].substr(0, 400));
        js += "]}";
    }
    js += "]}\n";
    FILE *fp = fopen(argv[5], "w");
    if (!fp) { perror(argv[5]); return 3; }
    fputs(js.c_str(), fp); fclose(fp);
    return rc;
}
}
// libc allocation functions as seen by the library (the archive's references
// are renamed at link time).
extern "C" {
static void foreign(const char *what)
{
    mc::foreign_allocs++;
    if (mc::foreign_forbidden) mc::alloc_fail("the library called %s() although a custom allocator is installed", what);
}
void *mcx_malloc(size_t n) { foreign("malloc"); return malloc(n); }
void *mcx_calloc(size_t a, size_t b) { foreign("calloc"); return calloc(a, b); }
void *mcx_realloc(void *p, size_t n) { foreign("realloc"); return realloc(p, n); }
void mcx_free(void *p) { if (p) foreign("free"); free(p); }
char *mcx_strdup(const char *s) { foreign("strdup"); return strdup(s); }
char *mcx_strndup(const char *s, size_t n) { foreign("strndup"); return strndup(s, n); }
int mcx_vasprintf(char **p, const char *f, va_list ap) { foreign("vasprintf"); return vasprintf(p, f, ap); }
int mcx_asprintf(char **p, const char *f, ...) { foreign("asprintf"); va_list ap; va_start(ap, f); int r = vasprintf(p, f, ap); va_end(ap); return r; }
void *mcx_aligned_alloc(size_t a, size_t n) { foreign("aligned_alloc"); return aligned_alloc(a, n); }
void *mcx_reallocarray(void *p, size_t a, size_t n) { foreign("reallocarray"); return reallocarray(p, a, n); }
int mcx_posix_memalign(void **p, size_t a, size_t n) { foreign("posix_memalign"); return posix_memalign(p, a, n); }
}
int main(int argc, char **argv) { setbuf(stdout, nullptr); return mc::master(argc, argv); }
