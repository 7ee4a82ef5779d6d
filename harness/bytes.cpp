// C07 (and the byte array part of C09): byte arrays against an ideal byte sequence.
#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <map>
#include <sys/mman.h>
#include "bytearray.h"
#include "fsalloc.h"
using namespace mc;
namespace {
const size_t HUGE_LEN = (size_t)1 << 30;      // beyond this nothing is really stored
std::string content(int kind, size_t pos, size_t len)
{
    std::string s(len, 0);
    for (size_t i = 0; i < len; i++) {
        size_t p = pos + i;
        switch (kind) {
            case 0: s[i] = p % 7 == 3 ? 0 : p % 11 == 5 ? 0xff : 'A' + p % 23; break;   // append
            case 1: s[i] = p % 5 == 2 ? 0 : 'a' + p % 23; break;                        // copy
            case 2: s[i] = '0' + p % 10; break;                                         // strings
            case 3: s[i] = 'N' + p % 9; break;                                          // copied strings
            default: s[i] = (char)(0x80 + p % 60);                                      // stream
        }
    }
    return s;
}
// A source block of exactly this size (the sanitizer guards both ends).
struct Src {
    char *p; explicit Src(const std::string &s, bool nul = false) { p = (char *)malloc(s.size() + nul); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; }
    ~Src() { free(p); }
};
struct Arr {
    byte_array_t *a = nullptr; std::string m; size_t max = 0; int refs = 0;
    bool fits(size_t n) { return max && n <= max - 1; }
    size_t room() { return max ? max - 1 - m.size() : 0; }
};
void verify(Arr &x, const char *after)
{
    MC_CHECK(byte_array_size(x.a) == x.m.size(), "after %s: size is %zu, expected %zu", after, byte_array_size(x.a), x.m.size());
    const char *d = (const char *)byte_array_data(x.a);
    MC_CHECK(d, "after %s: no data", after);
    if (memcmp(d, x.m.data(), x.m.size())) {
        size_t i = 0; while (d[i] == x.m[i]) i++;
        fail("after %s: byte %zu of %zu is %02x, expected %02x", after, i, x.m.size(), (uint8_t)d[i], (uint8_t)x.m[i]);
    }
    MC_CHECK(d[x.m.size()] == 0, "after %s: no NUL byte after the %zu bytes", after, x.m.size());
    step();
}
// result of an operation that needs total size n: success wanted?
void expect(Arr &x, bool got, bool want, bool noop, const char *what, size_t n)
{
    if (x.max == 0 && noop) return;          // nothing to store and no room even for the NUL: either answer
    MC_CHECK(got || errno == ENOSPC, "%s making the size %zu with maximum size %zu fails with errno %d", what, n, x.max, errno);
    MC_CHECK(got == want, "%s making the size %zu with maximum size %zu and %zu bytes stored %s", what, n, x.max, x.m.size(), got ? "succeeded" : "failed");
}
struct Stream { size_t asked; size_t offered; int calls; int answer; size_t pos; size_t wrote; Arr *x; };
enum { A_ERR, A_ERRS, A_EOF, A_ONE, A_ALL, A_LESS, NANS };
ssize_t read_cb(void *obj, void *buf, size_t count)
{
    Stream *s = (Stream *)obj;
    s->calls++; s->offered = count;
    MC_CHECK(count <= s->asked, "the stream callback was offered %zu bytes although %zu were requested", count, s->asked);
    MC_CHECK(count <= s->x->room(), "the stream callback was offered %zu bytes although only %zu fit", count, s->x->room());
    std::string c = content(4, s->pos, count);
    switch (s->answer) {
        case A_ERR: errno = EAGAIN; return s->asked % 2 ? -1 : -7;
        case A_ERRS: memcpy(buf, c.data(), count); memset(buf, 0xee, count); errno = EIO; return -1;
        case A_EOF: memset(buf, 0xdd, count); return 0;
        case A_ONE: s->wrote = count ? 1 : 0; memset(buf, 0xcc, count); memcpy(buf, c.data(), s->wrote); return s->wrote;
        case A_ALL: s->wrote = count; memcpy(buf, c.data(), count); return count;
        default: s->wrote = count ? count - 1 : 0; memset(buf, 0xbb, count); memcpy(buf, c.data(), s->wrote); return s->wrote;
    }
}
void do_append(Arr &x, size_t len, bool str)
{
    bool huge = len > HUGE_LEN;
    std::string c = content(str ? 2 : 0, x.m.size(), huge ? 4 : len);
    Src s(c, str);
    bool want = !huge && x.fits(x.m.size() + len);
    errno = 0;
    bool r = str ? byte_array_append_string(x.a, s.p) : byte_array_append(x.a, s.p, len);
    expect(x, r, want, len == 0, str ? "appending a string" : "appending", x.m.size() + len);
    if (r) x.m += c;
    verify(x, "an append");
}
void do_copy(Arr &x, size_t pos, size_t len, bool str)
{
    bool huge = len > HUGE_LEN;
    std::string c = content(str ? 3 : 1, pos, huge ? 4 : len);
    Src s(c, str);
    bool want = pos <= x.m.size() && !huge && x.fits(std::max(x.m.size(), pos + len));
    errno = 0;
    bool r = str ? byte_array_copy_string(x.a, pos, s.p) : byte_array_copy(x.a, pos, s.p, len);
    MC_CHECK(r || pos > x.m.size() || errno == ENOSPC, "copying %zu bytes to position %zu of %zu with maximum size %zu fails with errno %d", len, pos, x.m.size(), x.max, errno);
    if (x.max == 0 && pos == 0 && len == 0) {}
    else MC_CHECK(r == want, "copying %zu bytes to position %zu of %zu with maximum size %zu %s", len, pos, x.m.size(), x.max, r ? "succeeded" : "failed");
    if (r) { if (pos + len > x.m.size()) x.m.resize(pos + len); x.m.replace(pos, len, c); }
    verify(x, "a copy");
}
void do_self(Arr &x, size_t dst, size_t src, size_t len)
{
    const char *d = (const char *)byte_array_data(x.a);
    bool r = byte_array_copy(x.a, dst, d + src, len);
    MC_CHECK(r, "copying within the array failed");
    x.m.replace(dst, len, x.m.substr(src, len));
    verify(x, "a copy within the array");
}
void do_resize(Arr &x, size_t n, uint8_t c)
{
    bool want = x.fits(n) && n < HUGE_LEN;
    errno = 0;
    bool r = byte_array_resize(x.a, n, c);
    expect(x, r, want, n == 0, "resizing", n);
    if (r) x.m.resize(n, (char)c);
    verify(x, "a resize");
}
void do_stream(Arr &x, size_t len, int answer)
{
    Stream s = {len, 0, 0, answer, x.m.size(), 0, &x};
    errno = 0;
    ssize_t r = byte_array_append_stream(x.a, read_cb, &s, len);
    int e = errno;
    size_t room = x.room();
    MC_CHECK(s.calls <= 1, "the stream callback was called %d times", s.calls);
    if (len && room) {
        MC_CHECK(s.calls == 1, "a stream read of %zu bytes with room for %zu did not call the callback", len, room);
        MC_CHECK(s.offered == std::min(len, room), "a stream read of %zu bytes with room for %zu offered %zu", len, room, s.offered);
    }
    if (s.calls == 0 && len) MC_CHECK(r < 0 && e == ENOSPC, "a stream read without room returned %zd, errno %d", r, e);
    if (s.calls) {
        bool failed = answer == A_ERR || answer == A_ERRS;
        ssize_t want = failed ? -1 : (ssize_t)s.wrote;
        if (failed) MC_CHECK(r < 0 && e == (answer == A_ERR ? EAGAIN : EIO), "a stream read whose callback failed with errno %d returned %zd, errno %d", answer == A_ERR ? EAGAIN : EIO, r, e);
        else MC_CHECK(r == want, "a stream read returned %zd, the callback reported %zd", r, want);
        if (want > 0) x.m += content(4, s.pos, s.wrote);
    }
    verify(x, "a stream read");
}
void create(Arr &x, size_t max) { x = Arr(); x.max = max; x.a = make_byte_array(max); x.refs = 1; MC_CHECK(x.a, "no array created"); verify(x, "creation"); }
void destroy_all(Arr &x) { while (x.refs) { x.refs--; destroy_byte_array(x.a); if (x.refs) verify(x, "destroying one holder"); } }

enum { APPEND, APPSTR, COPY, COPYSTR, SELF, RESIZE, STREAM, CLEAR, SHARE, DESTROY };
std::vector<size_t> maxes;
struct Sys : System {
    bool small;
    explicit Sys(bool small) : small(small) {}
    Arr x;
    void start(int config) override { create(x, maxes[config]); }
    std::vector<size_t> targets(bool below)
    {
        size_t c = x.m.size();
        std::vector<size_t> t;
        auto add = [&](size_t v) { if (v >= c || below) if (std::find(t.begin(), t.end(), v) == t.end()) t.push_back(v); };
        if (small) { for (size_t i = 0; i <= x.max + 1; i++) add(i); return t; }
        if (below) { add(0); add(1); add(c / 2); if (c) add(c - 1); }
        add(c); add(c + 1);
        for (size_t v : {3, 127, 128, 255, 256}) add(v);
        if (x.max < 5000) for (int d = -2; d <= 1; d++) if ((long)x.max + d >= 0) add(x.max + d);
        return t;
    }
    std::vector<size_t> huge()
    {
        std::vector<size_t> t;
        size_t c = x.m.size();
        for (size_t v : {SIZE_MAX, SIZE_MAX - c, SIZE_MAX - c - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 1})
            if ((v > SIZE_MAX - c || !x.fits(c + v)) && std::find(t.begin(), t.end(), v) == t.end()) t.push_back(v);
        return t;
    }
    std::vector<size_t> starts()
    {
        size_t c = x.m.size();
        std::vector<size_t> t;
        auto add = [&](size_t v) { if (std::find(t.begin(), t.end(), v) == t.end()) t.push_back(v); };
        if (small) for (size_t i = 0; i <= c + 1; i++) add(i);
        else { add(0); add(c / 2); add(c); add(c + 1); }
        add(SIZE_MAX);
        return t;
    }
    static uint16_t code(int k, int a, int b) { return k << 12 | a << 6 | b; }
    std::vector<size_t> lens(bool str) { auto t = targets(false); for (auto &v : t) v -= x.m.size(); if (!str) for (auto h : huge()) t.push_back(h); return t; }
    std::vector<size_t> clens(size_t pos, bool str)
    {
        std::vector<size_t> t;
        size_t c = x.m.size();
        auto add = [&](size_t v) { if (std::find(t.begin(), t.end(), v) == t.end()) t.push_back(v); };
        if (pos > c) { add(0); add(1); return t; }
        if (small) for (size_t e = pos; e <= x.max + 1; e++) add(e - pos);
        else { add(0); add(1); add((c - pos) / 2); add(c - pos); for (auto e : targets(false)) add(e - pos); }
        if (!str) for (size_t v : {SIZE_MAX, SIZE_MAX - pos, SIZE_MAX - pos + 1, SIZE_MAX / 2 + 1})
            if (v > SIZE_MAX - pos || !x.fits(pos + v)) add(v);
        return t;
    }
    std::vector<size_t> slens()
    {
        std::vector<size_t> t;
        auto add = [&](size_t v) { if (std::find(t.begin(), t.end(), v) == t.end()) t.push_back(v); };
        for (auto v : targets(false)) add(v - x.m.size());
        if (x.max < 5000) for (size_t v : {(size_t)5000, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2}) add(v);
        return t;
    }
    std::vector<size_t> rsizes() { auto t = targets(true); for (size_t v : {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2 + 1}) if (!x.fits(v)) t.push_back(v); return t; }
    void ops(std::vector<uint16_t> &o) override
    {
        size_t n = lens(false).size();
        for (size_t i = 0; i < n; i++) o.push_back(code(APPEND, i, 0));
        n = lens(true).size();
        for (size_t i = 0; i < n; i++) o.push_back(code(APPSTR, i, 0));
        auto st = starts();
        for (size_t i = 0; i < st.size(); i++) {
            n = clens(st[i], false).size();
            for (size_t j = 0; j < n; j++) o.push_back(code(COPY, i, j));
            n = clens(st[i], true).size();
            for (size_t j = 0; j < n; j++) o.push_back(code(COPYSTR, i, j));
        }
        n = rsizes().size();
        for (size_t i = 0; i < n; i++) for (int c = 0; c < 2; c++) o.push_back(code(RESIZE, i, c));
        n = slens().size();
        for (size_t i = 0; i < n; i++) for (int a = 0; a < NANS; a++) o.push_back(code(STREAM, i, a));
        if (x.m.size() >= 3) for (int i = 0; i < 4; i++) o.push_back(code(SELF, i, 0));
        o.push_back(code(CLEAR, 0, 0));
        if (x.refs < 3) o.push_back(code(SHARE, 0, 0));
        if (x.refs > 1) o.push_back(code(DESTROY, 0, 0));
    }
    void apply(uint16_t op) override
    {
        int k = op >> 12, a = op >> 6 & 63, b = op & 63;
        size_t c = x.m.size();
        step();
        switch (k) {
            case APPEND: do_append(x, lens(false)[a], false); break;
            case APPSTR: do_append(x, lens(true)[a], true); break;
            case COPY: { size_t p = starts()[a]; do_copy(x, p, clens(p, false)[b], false); break; }
            case COPYSTR: { size_t p = starts()[a]; do_copy(x, p, clens(p, true)[b], true); break; }
            case SELF:
                if (a == 0) do_self(x, 1, 0, c - 1); else if (a == 1) do_self(x, 0, 1, c - 1);
                else if (a == 2) do_self(x, 0, 0, c); else do_self(x, c / 2, c / 3, c - c / 2);
                break;
            case RESIZE: do_resize(x, rsizes()[a], b ? 'r' : 0); break;
            case STREAM: do_stream(x, slens()[a], b); break;
            case CLEAR: byte_array_clear(x.a); x.m.clear(); verify(x, "clearing"); break;
            case SHARE: { byte_array_t *s = share_byte_array(x.a); MC_CHECK(s == x.a, "sharing returned another object"); x.refs++; verify(x, "sharing"); break; }
            case DESTROY: destroy_byte_array(x.a); x.refs--; verify(x, "destroying one holder"); break;
        }
        outcome(k * 1000 + x.m.size());
    }
    void check() override { verify(x, "the history"); }
    void canon(Canon &c) override
    {
        if (small) c.root(x.a);
        else { arena_hash_sizes(c.h); for (char ch : x.m) c.add((uint8_t)ch); }
        c.add(x.m.size()); c.add(x.refs);
    }
    void finish() override { destroy_all(x); }
    std::string opname(uint16_t op) override
    {
        static const char *N[] = {"append", "append_string", "copy", "copy_string", "self-copy", "resize", "append_stream", "clear", "share", "destroy-holder"};
        return std::string(N[op >> 12]) + " #" + std::to_string(op >> 6 & 63) + "/" + std::to_string(op & 63);
    }
    std::string confname(int c) override { return "maximum size " + std::to_string(maxes[c]); }
};
void two_step(const uint8_t *p, size_t)
{
    uint32_t a = getv<uint32_t>(p), b = getv<uint32_t>(p); int mode = p[0], lim = p[1];
    size_t max = lim == 0 ? SIZE_MAX : lim == 1 ? (size_t)a + b + 1 : (size_t)a + b;
    if (max == 0) max = 1;
    Arr x; create(x, max);
    for (uint32_t i = (a + b) % 6; i > 2; i--) { MC_CHECK(share_byte_array(x.a) == x.a, "sharing returned another object"); x.refs++; }
    switch (mode) {
        case 0: do_append(x, a, false); do_append(x, b, false); break;
        case 1: do_copy(x, 0, a, false); do_copy(x, x.m.size(), b, false); do_copy(x, x.m.size() / 2, b, false); break;
        case 2: do_resize(x, a, 'x'); do_resize(x, a + b, 'y'); do_resize(x, b, 'z'); do_append(x, 1, true); break;
        case 3: do_stream(x, a, A_ALL); do_stream(x, b, A_ALL); do_stream(x, b, A_ERRS); break;
        default: do_append(x, a, true); byte_array_clear(x.a); x.m.clear(); verify(x, "clearing"); do_append(x, b, true); do_copy(x, b / 2, a, true); break;
    }
    outcome(x.m.size());
    destroy_all(x);
    if (arena_strict && arena_live()) alloc_fail("%zu block(s) still allocated after everything was destroyed (%s)", arena_live(), arena_describe_live().c_str());
}
void grow(const uint8_t *p, size_t)
{
    uint32_t inc = getv<uint32_t>(p); int mode = *p;
    Arr x; create(x, mode & 4 ? 6000 : SIZE_MAX);
    arena_limit = (size_t)1 << 30;
    while (x.m.size() < 8000) {
        size_t before = x.m.size();
        switch (mode & 3) {
            case 0: do_append(x, inc, false); break;
            case 1: do_copy(x, x.m.size(), inc, false); break;
            case 2: do_resize(x, x.m.size() + inc, (uint8_t)x.m.size()); break;
            default: do_stream(x, inc, A_ALL); break;
        }
        if (x.m.size() == before) break;
    }
    destroy_all(x);
}
void large(const uint8_t *p, size_t)
{
    uint32_t n = getv<uint32_t>(p); int mode = p[0], lim = p[1];
    arena_limit = (size_t)1 << 30;
    Arr x; create(x, lim == 0 ? SIZE_MAX : lim == 1 ? (size_t)n + 1 : (size_t)n);
    size_t a = std::min<size_t>(n, mode & 1 ? 100 : n / 2);
    do_append(x, a, false);
    switch (mode >> 1) {
        case 0: do_append(x, n - a, false); break;
        case 1: do_copy(x, a, n - a, false); break;
        case 2: do_resize(x, n, 'r'); break;
        case 3: do_stream(x, n - a, A_ALL); break;
        case 4: do_append(x, n - a, true); break;
        default: do_copy(x, a / 2, n - a / 2, true); break;
    }
    do_append(x, 1, false);
    do_copy(x, x.m.size() / 2, x.m.size() / 4, false);
    do_resize(x, x.m.size() - x.m.size() / 3, 'q');
    do_resize(x, x.m.size() + 1, 's');
    outcome(x.m.size() & 3);
    destroy_all(x);
    MC_CHECK(arena_live() == 0, "something is still allocated after the last holder destroyed the array");
}
// Sizes beyond 32 bits: the blocks are lazily backed, the stream callback
// claims its bytes without writing them.
std::map<char *, size_t> maps;
void *map_realloc(void *ptr, size_t size)
{
    size_t span = (size + 4096) & ~(size_t)4095;
    if (!ptr) {
        if (!size) return nullptr;
        char *q = (char *)mmap(nullptr, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) throw Prune();
        maps[q] = span;
        return q;
    }
    auto it = maps.find((char *)ptr);
    MC_CHECK(it != maps.end(), "release or resize of %p, which is not an allocated block", ptr);
    size_t old = it->second;
    maps.erase(it);
    if (!size) { munmap(ptr, old); return nullptr; }
    char *q = (char *)mremap(ptr, old, span, MREMAP_MAYMOVE);
    if (q == MAP_FAILED) throw Prune();
    maps[q] = span;
    return q;
}
struct Claim { size_t asked, offered; };
ssize_t claim_cb(void *obj, void *buf, size_t count) { Claim *c = (Claim *)obj; c->offered = count; if (count) { ((char *)buf)[0] = 'F'; ((char *)buf)[count - 1] = 'L'; } return std::min(count, c->asked); }
void giant(const uint8_t *p, size_t)
{
    uint64_t n = getv<uint64_t>(p); int lim = p[0];
    fs_set_reallocator(map_realloc);
    struct Undo { ~Undo() { for (auto &m : maps) munmap(m.first, m.second); maps.clear(); fs_set_reallocator(arena_realloc); } } undo;
    byte_array_t *a = make_byte_array(lim == 0 ? SIZE_MAX : lim == 1 ? n + 4 : n + 3);
    MC_CHECK(byte_array_append(a, "abc", 3), "an append failed");
    Claim c = {n - 3, 0};
    ssize_t r = byte_array_append_stream(a, claim_cb, &c, n - 3);
    MC_CHECK(c.offered == n - 3 && r == (ssize_t)(n - 3) && byte_array_size(a) == n, "a stream read of %zu bytes offered %zu, returned %zd and made the size %zu", (size_t)n - 3, c.offered, r, byte_array_size(a));
    const char *d = (const char *)byte_array_data(a);
    MC_CHECK(!memcmp(d, "abcF", 4) && d[n - 1] == 'L' && !d[n], "wrong contents around a stream read of %zu bytes", (size_t)n - 3);
    bool ok = byte_array_append(a, "xyz", 3);
    MC_CHECK(ok == (lim != 2), "appending 3 bytes to %zu with maximum size n+%d %s", (size_t)n, lim == 1 ? 4 : 3, ok ? "succeeded" : "failed");
    size_t m = n + (ok ? 3 : 0);
    d = (const char *)byte_array_data(a);
    MC_CHECK(byte_array_size(a) == m && !d[m] && !memcmp(d, "abcF", 4) && d[n - 1] == 'L' && (!ok || !memcmp(d + n, "xyz", 3)), "wrong contents after appending to %zu bytes", (size_t)n);
    MC_CHECK(byte_array_copy(a, n - 2, "PQ", 2), "a copy to position %zu failed", (size_t)n - 2);
    MC_CHECK(byte_array_copy(a, 1, "RS", 2), "a copy to position 1 of %zu failed", m);
    MC_CHECK(!byte_array_copy(a, m + 1, "T", 1), "a copy to position %zu of %zu succeeded", m + 1, m);
    d = (const char *)byte_array_data(a);
    MC_CHECK(byte_array_size(a) == m && !memcmp(d, "aRSF", 4) && !memcmp(d + n - 2, "PQ", 2) && !d[m], "wrong contents after copying into %zu bytes", m);
    MC_CHECK(byte_array_resize(a, n - 1, 0), "shrinking %zu bytes failed", m);
    d = (const char *)byte_array_data(a);
    MC_CHECK(byte_array_size(a) == n - 1 && d[n - 2] == 'P' && !d[n - 1] && !memcmp(d, "aRSF", 4), "wrong contents after shrinking %zu bytes", m);
    MC_CHECK(byte_array_copy(a, n - 1, "UVW", 3) && byte_array_size(a) == n + 2, "a copy that extends %zu bytes by 3 is wrong", (size_t)n - 1);
    d = (const char *)byte_array_data(a);
    MC_CHECK(!memcmp(d + n - 2, "PUVW", 5) && !memcmp(d, "aRSF", 4), "wrong contents after a copy that extends %zu bytes", (size_t)n - 1);
    destroy_byte_array(a);
    MC_CHECK(maps.empty(), "something is still allocated after the last holder destroyed the array");
    step(9);
}
void many_holders(const uint8_t *p, size_t)
{
    // 2^k holders, released one by one: alive until the last
    uint32_t n = getv<uint32_t>(p);
    Arr x; create(x, 100); do_append(x, 5, false);
    for (uint32_t i = 0; i < n; i++) if (share_byte_array(x.a) != x.a) fail("sharing returned another object");
    for (uint32_t i = 0; i < n; i++) { destroy_byte_array(x.a); if ((i & (i - 1)) == 0 || i > n - 4) { MC_CHECK(arena_is_live(x.a), "the array was released with %u holders left", n - i); verify(x, "destroying one holder"); } }
    verify(x, "destroying all but one holder");
    destroy_all(x);
    MC_CHECK(arena_live() == 0, "the array is still allocated after its last holder destroyed it");
}
}
void bytes_suites(std::vector<Suite> &out, bool alloc)
{
    maxes = {0, 1, 2, 3};
    if (!alloc) { maxes.push_back(4); if (thorough) maxes.push_back(5); }
    size_t ns = maxes.size();
    for (size_t m : {(size_t)6, (size_t)126, (size_t)127, (size_t)128, (size_t)129, (size_t)130, (size_t)255, (size_t)256, (size_t)257, (size_t)258, (size_t)300, SIZE_MAX - 1, SIZE_MAX}) maxes.push_back(m);
    Suite s;
    s.name = "bytes-small";
    s.bound = "all histories with maximum sizes 0.." + std::to_string(ns - 1) + ": every length and position, every callback answer, up to 3 holders";
    s.nconfigs = ns;
    s.make = [] { return new Sys(true); };
    out.push_back(s);
    s.name = "bytes-boundaries";
    s.nconfigs = maxes.size();
    s.max_depth = alloc ? 2 : thorough ? 4 : 3;
    s.bound = "all histories of up to " + std::to_string(s.max_depth) + " operations with maximum sizes around the growth boundaries and SIZE_MAX; lengths and positions at every boundary, overflowing lengths";
    s.make = [] { return new Sys(false); };
    s.time_share = 4;
    out.push_back(s);
    Suite d;
    int top = alloc ? 40 : thorough ? 300 : 140;
    d.name = "bytes-pairs";
    d.bound = "every pair of lengths up to " + std::to_string(top) + " (plus around 256) in 5 operation patterns, maximum size unlimited, exact or one too small";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        std::vector<uint32_t> z; for (int k = 0; k <= top; k++) z.push_back(k);
        for (uint32_t k : {254, 255, 256, 257, 511, 512, 513, 1023, 1024}) if ((int)k > top) z.push_back(k);
        for (auto a : z) for (auto b : z) for (int m = 0; m < 5; m++) for (int l = 0; l < 3; l++)
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, a); putv(v, b); v.push_back(m); v.push_back(l); e.run(v.data(), v.size()); }
    };
    d.exec = two_step;
    d.describe = [](const uint8_t *p, size_t) { auto a = getv<uint32_t>(p), b = getv<uint32_t>(p); return "lengths " + std::to_string(a) + " and " + std::to_string(b) + ", pattern " + std::to_string(p[0]) + ", limit " + std::to_string(p[1]); };
    out.push_back(d);
    if (alloc) return;
    d.name = "bytes-growth";
    d.bound = "growing to 8000 bytes in steps of 1..150 by append, copy, resize and stream";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (uint32_t inc = 1; inc <= 150; inc++) for (int m = 0; m < 8; m++)
            if (inc > 8 || m == 0 || thorough || inc == 1) if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, inc); v.push_back(m); e.run(v.data(), v.size()); }
    };
    d.exec = grow;
    d.describe = [](const uint8_t *p, size_t) { auto a = getv<uint32_t>(p); return "step " + std::to_string(a) + ", pattern " + std::to_string(*p); };
    out.push_back(d);
    d.name = "bytes-large";
    d.bound = "sizes around powers of two from 2^10 to 2^21 reached by append, copy, resize, stream and strings from two smaller sizes, maximum size unlimited, exact or one too small";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (int b = 10; b <= 21; b++) for (int k = -3; k <= 2; k++) for (int m = 0; m < 12; m++) for (int l = 0; l < 3; l++)
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, (uint32_t)((1 << b) + k)); v.push_back(m); v.push_back(l); e.run(v.data(), v.size()); }
    };
    d.exec = large;
    d.describe = [](const uint8_t *p, size_t) { auto a = getv<uint32_t>(p); return "size " + std::to_string(a) + ", pattern " + std::to_string(p[0]) + ", limit " + std::to_string(p[1]); };
    out.push_back(d);
    d.name = "bytes-giant";
    d.bound = "sizes around 2^31, 2^32 and 2^33 (lazily backed memory), maximum size unlimited, exact or one too small";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (int b = 31; b <= 33; b++) for (int k = -5; k <= 5; k++) for (int l = 0; l < 3; l++)
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, (uint64_t)(((uint64_t)1 << b) + k)); v.push_back(l); e.run(v.data(), v.size()); }
    };
    d.exec = giant;
    d.describe = [](const uint8_t *p, size_t) { auto a = getv<uint64_t>(p); return "size " + std::to_string(a) + ", limit " + std::to_string(p[0]); };
    out.push_back(d);
    d.name = "bytes-holders";
    d.bound = "up to 100000 additional holders released one by one";
    d.enumerate = [=](Enum &e) {
        uint64_t i = 0;
        for (uint32_t n : {0, 1, 2, 3, 5, 100, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 100000})
            if (e.mine(i++)) { std::vector<uint8_t> v; putv(v, n); e.run(v.data(), v.size()); }
    };
    d.exec = many_holders;
    d.describe = [](const uint8_t *p, size_t) { return std::to_string(getv<uint32_t>(p)) + " additional holders"; };
    out.push_back(d);
}
#ifndef MC_COMBINED
namespace mc { void suites(std::vector<Suite> &out) { bytes_suites(out, false); } }
#endif
