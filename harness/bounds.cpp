// C17: every conversion is run with its input in read-only memory and its
// input and output flush against inaccessible pages, at both edges, with every
// end and every output size, and in different surroundings, which must not
// influence the result.
#include "text.hpp"
#include "ref_utf8.hpp"
#include "charstr.h"
#include "base64.h"
#include "list.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace mc;

// An area seen twice: read-only and guarded (for the library), writable (ours).
struct Area {
    enum { N = 16384, P = 4096 };
    char *ro, *rw;
    Area()
    {
        int fd = memfd_create("area", 0);
        if (fd < 0 || ftruncate(fd, N)) { perror("memfd"); _exit(3); }
        char *g = (char *)mmap(nullptr, N + 2 * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        ro = (char *)mmap(g + P, N, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
        rw = (char *)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g == MAP_FAILED || ro == MAP_FAILED || rw == MAP_FAILED) { perror("mmap"); _exit(3); }
        close(fd);
    }
    const char *at_end(const std::string &s, const std::string &before)
    {
        memcpy(rw + N - s.size(), s.data(), s.size());
        memcpy(rw + N - s.size() - before.size(), before.data(), before.size());
        return ro + N - s.size();
    }
    const char *at_start(const std::string &s, const std::string &after)
    {
        memcpy(rw, s.data(), s.size());
        memcpy(rw + s.size(), after.data(), after.size());
        return ro;
    }
};
// one pair per process: the areas are shared mappings and workers are forked
static Area &area(int i)
{
    static pid_t owner;
    static Area *a[2];
    if (!a[0] || owner != getpid()) { owner = getpid(); a[0] = new Area; a[1] = new Area; }
    return *a[i];
}
static Guard &dst() { static Guard g(4); return g; }

static const std::string BEFORE[] = {"aa", "\xc3\xe1\x84", std::string(2, '\0'), "%\xf0\x9f\x92", "== "};
static const std::string AFTER[] = {std::string(5, '\0'), "aaaaa", "\x80\xbf\x81\x80\x80", "\xcc\x81" "e\xcc\x81", "\xe1\x85\xa1\xe1\x86", "41%+A", " =\n==", ".xn--"};
enum { NB = 5, NA = 8 };

// The output buffer: room bytes flush with either edge, canaries elsewhere.
struct Out { char *p; size_t room; char *end() const { return p + room; } };
enum { CAN = 48 };
static Out out_at(bool end, size_t room, int fill)
{
    Guard &g = dst();
    Out o{end ? g.at_end(room) : g.at_start(), room};
    memset(end ? o.p - CAN : o.p, fill, room + CAN);
    return o;
}
static void out_check(const char *what, const std::string &in, bool end, const Out &o, int fill)
{
    const char *c = end ? o.p - CAN : o.p + o.room;
    for (int i = 0; i < CAN; i++)
        MC_CHECK(c[i] == (char)fill, "%s of %s with room for %zu bytes writes outside its destination (offset %ld)", what, quote(in).c_str(), o.room, (long)(c + i - o.p));
}
static std::string num(long n) { return std::to_string(n) + ";"; }

// An operation on one bounded or terminated input and an output buffer.
struct Op {
    const char *name;
    bool bounded, terminated;          // the ways its input may be given
    std::function<std::string(const char *s, const char *end, Out o)> f;
    std::function<size_t(size_t)> rooms;   // largest room tried; none: no output buffer
};
static std::string heap_str(char *p, long n = -1)
{
    if (!p) return "NULL";
    std::string r = "=" + (n < 0 ? std::string(p) : std::string(p, n + 1));
    fsfree(p);
    return r;
}
static std::string heap_list(list_t *l)
{
    std::string r;
    while (!list_empty(l)) { r += heap_str((char *)list_pop_first(l)); r += '\1'; }
    destroy_list(l);
    return r;
}

static void run_op(const Op &op, const std::string &x)
{
    std::string want;
    bool have = false;
    auto check = [&](const std::string &got, const char *how) {
        if (!have) { want = got; have = true; return; }
        MC_CHECK(got == want, "%s of %s depends on what is around it (%s): %s or %s", op.name, quote(x).c_str(), how, quote(got).c_str(), quote(want).c_str());
    };
    size_t max = op.rooms ? op.rooms(x.size()) : 0;
    Area &A = area(0);
    for (int t = 0; t < 2; t++) {
        if (t ? !op.terminated : !op.bounded) continue;
        if (t && x.find('\0') != x.npos) continue;
        if (t) have = false;
        std::string y = t ? x + '\0' : x;
        for (size_t room = 0; room <= max; room++) {
            have = false;
            // flush with the end of the input area, and the output with both edges
            for (int oe = 0; oe < 2; oe++) for (int b = 0; b < (oe ? 1 : 2); b++) {
                int fill = oe ? 0x6b : 0x94;
                Out o = out_at(oe, room, fill);
                const char *s = A.at_end(y, BEFORE[b]);
                step();
                check(op.f(s, t ? nullptr : s + x.size(), o), "before the input");
                if (op.rooms) out_check(op.name, x, oe, o, fill);
            }
            if (op.rooms && room + 2 < max && room != x.size() && room != x.size() + 1 && room > 1) continue;
            for (int a = 0; a < NA; a++) {
                Out o = out_at(true, room, 0x20 + a);
                const char *s = A.at_start(y, AFTER[a]);
                step();
                check(op.f(s, t ? nullptr : s + x.size(), o), "after the input");
                if (op.rooms) out_check(op.name, x, true, o, 0x20 + a);
            }
            for (int b = 2; b < NB; b++) {
                Out o = out_at(true, room, 0x40 + b);
                const char *s = A.at_end(y, BEFORE[b]);
                step();
                check(op.f(s, t ? nullptr : s + x.size(), o), "before the input");
            }
        }
    }
    if (op.bounded && op.terminated && x.find('\0') == x.npos) {
        // terminated before a later end
        have = false;
        Out o = out_at(true, max, 0);
        const char *s = A.at_end(x + '\0', "");
        check(op.f(s, nullptr, o), "");
        for (int a = 0; a < NA; a++) {
            std::string y = x + '\0' + AFTER[a];
            s = A.at_end(y, "");
            step();
            check(op.f(s, s + y.size(), o), "after the terminator");
        }
    }
}

static void run_ops(const std::vector<Op> &ops, const std::string &x)
{
    for (auto &op : ops) { arena_reset(); run_op(op, x); }
}

static std::vector<Op> unicode_ops()
{
    auto norm = [](bool dec) {
        return [dec](const char *s, const char *end, Out o) {
            errno = 0;
            char *r = dec ? charstr_unicode_decompose(s, end, o.p, o.end()) : charstr_unicode_recompose(s, end, o.p, o.end());
            return r ? std::string(o.p, r - o.p + 1) : "fail " + num(errno);
        };
    };
    return {
        {"decoding", true, true, [](const char *s, const char *end, Out) {
            if (s == end) return std::string();
            int c = -1;
            const char *r = charstr_decode_utf8_codepoint(s, end, &c);
            const char *r2 = charstr_decode_utf8_codepoint(s, end, nullptr);
            return r ? num(r - s) + num(c) + num(r2 - s) : "NULL" + num(!r2);
        }, nullptr},
        {"bounded validation", true, false, [](const char *s, const char *end, Out) { return num(charstr_valid_utf8_bounded(s, end)); }, nullptr},
        {"validation", false, true, [](const char *s, const char *, Out) { return num(charstr_valid_utf8(s)); }, nullptr},
        {"sanitizing", false, true, [](const char *s, const char *, Out) { return heap_str(charstr_sanitize_utf8(s)); }, nullptr},
        {"normal form detection", true, true, [](const char *s, const char *end, Out) {
            return num(charstr_detect_unicode_normal_form(s, end, UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE)) + num(charstr_detect_unicode_normal_form(s, end, UNICODE_NFKD_DISALLOWED, UNICODE_NFKD_MAYBE)) +
                   num(charstr_unicode_canonically_composed(s, end)) + num(charstr_unicode_canonically_decomposed(s, end));
        }, nullptr},
        {"decomposition", true, true, norm(true), [](size_t n) { return 3 * n + 2; }},
        {"recomposition", true, true, norm(false), [](size_t n) { return n + 2; }},
        {"duplication", true, false, [](const char *s, const char *end, Out) { return heap_str(charstr_dupsubstr(s, end)); }, nullptr},
    };
}
static std::vector<Op> ascii_ops()
{
    return {
        {"duplication", false, true, [](const char *s, const char *, Out) { return heap_str(charstr_dupstr(s)); }, nullptr},
        {"sub-string duplication", true, false, [](const char *s, const char *end, Out) { return heap_str(charstr_dupsubstr(s, end)); }, nullptr},
        {"stripping", false, true, [](const char *s, const char *, Out) { return heap_str(charstr_strip(s)); }, nullptr},
        {"splitting into atoms", false, true, [](const char *s, const char *, Out) { return heap_list(charstr_split_atoms(s)); }, nullptr},
        {"splitting", false, true, [](const char *s, const char *, Out) {
            std::string r;
            for (unsigned m : {0u, 1u, 2u, (unsigned)-1}) r += heap_list(charstr_split(s, ',', m)) + heap_list(charstr_split(s, 'a', m)) + "/";
            return r;
        }, nullptr},
        {"splitting into an array", false, true, [](const char *s, const char *, Out o) {
            unsigned max = o.room / sizeof(char *);
            if (o.room % sizeof(char *) || !max) return std::string();
            char **v = (char **)o.p;
            unsigned n = charstr_split_into_array(s, ',', v, max - 1);
            std::string r = num(n);
            for (unsigned i = 0; i <= n; i++) r += heap_str(v[i]);
            return r;
        }, [](size_t n) { return (n + 2) * sizeof(char *); }},
        {"URL encoding", false, true, [](const char *s, const char *, Out) { return heap_str(charstr_url_encode(s)); }, nullptr},
        {"URL decoding", false, true, [](const char *s, const char *, Out) {
            size_t n = 0;
            std::string r;
            for (int k = 0; k < 2; k++) {
                char *p = charstr_url_decode(s, k, &n);
                r += p ? heap_str(p, n) : "NULL";
                p = charstr_url_decode(s, k, nullptr);
                r += p ? heap_str(p, n) : "NULL";
            }
            return r;
        }, nullptr},
        {"creating a URL encoder reserving", false, true, [](const char *s, const char *, Out) {
            std::string r;
            auto *e = charstr_create_url_encoder(s, "");
            for (int c = 1; c < 256; c++) r += charstr_url_custom_encode_byte(e, c);
            r += heap_str(charstr_url_custom_encode(e, s));
            charstr_destroy_url_encoder(e);
            e = charstr_create_url_encoder("", s);
            for (int c = 1; c < 256; c++) r += charstr_url_custom_encode_byte(e, c);
            r += heap_str(charstr_url_custom_encode(e, s));
            charstr_destroy_url_encoder(e);
            return r;
        }, nullptr},
    };
}
static std::vector<Op> base64_ops()
{
    auto dec = [](bool wsp, char a, char b) {
        return [=](const char *s, const char *end, Out o) {
            ssize_t n = base64_decode_buffer(s, end - s, o.p, o.room, a, b, wsp);
            return num(n) + (n > 0 ? std::string(o.p, std::min((size_t)n, o.room)) : "");
        };
    };
    auto enc = [](char a, char b) {
        return [=](const char *s, const char *end, Out o) {
            size_t n = base64_encode_buffer(s, end - s, o.p, o.room, a, b);
            return num(n) + (o.room > n ? std::string(o.p, n + 1) : "");
        };
    };
    return {
        {"base64 encoding", true, false, enc(-1, -1), [](size_t n) { return (n + 2) / 3 * 4 + 2; }},
        {"base64url encoding", true, false, enc('-', '_'), [](size_t n) { return (n + 2) / 3 * 4 + 2; }},
        {"simple base64 encoding", true, false, [](const char *s, const char *end, Out) { return heap_str(base64_encode_simple(s, end - s)); }, nullptr},
        {"base64 decoding", true, false, dec(false, -1, -1), [](size_t n) { return n + 1; }},
        {"lenient base64 decoding", true, false, dec(true, -1, -1), [](size_t n) { return n + 1; }},
        {"base64url decoding", true, false, dec(true, '-', '_'), [](size_t n) { return n + 1; }},
        {"simple base64 decoding", false, true, [](const char *s, const char *, Out) {
            size_t n = 0;
            void *p = base64_decode_simple(s, &n);
            if (!p) return std::string("NULL");
            std::string r = num(n) + std::string((char *)p, n);
            fsfree(p);
            return r;
        }, nullptr},
    };
}
static std::vector<Op> idna_ops()
{
    return {{"host name encoding", false, true, [](const char *s, const char *, Out) { return heap_str(charstr_idna_encode(s)); }, nullptr}};
}

// In-place case conversion.
static void case_inplace(const std::string &x)
{
    Guard &g = dst();
    auto conv = [](const std::string &s, size_t i, size_t j, bool up) {
        std::string r = s;
        for (size_t k = i; k < j; k++) if (up ? r[k] >= 'a' && r[k] <= 'z' : r[k] >= 'A' && r[k] <= 'Z') r[k] ^= 32;
        return r;
    };
    std::string pad = "zAqZ";
    for (int up = 0; up < 2; up++) {
        if (x.find('\0') == x.npos) {
            std::string all = pad + x + '\0';
            for (int e = 0; e < 2; e++) {
                std::string a = e ? all : x + '\0' + pad;
                char *m = e ? g.at_end(a.size()) : g.at_start();
                memcpy(m, a.data(), a.size());
                char *s = e ? m + pad.size() : m;
                step();
                char *r = up ? charstr_ucase_str(s) : charstr_lcase_str(s);
                std::string want = e ? conv(a, pad.size(), pad.size() + x.size(), up) : conv(a, 0, x.size(), up);
                MC_CHECK(r == s, "case conversion of %s does not return its argument", quote(x).c_str());
                MC_CHECK(std::string(m, a.size()) == want, "case conversion of %s turns %s into %s", quote(x).c_str(), quote(a).c_str(), quote(std::string(m, a.size())).c_str());
            }
        }
        for (size_t i = 0; i <= x.size(); i++) for (size_t j = i; j <= x.size(); j++) for (int e = 0; e < 2; e++) {
            // the sub-string [i,j) with the rest of the word around it
            char *m = e ? g.at_end(j) : g.at_start();
            std::string y = e ? x.substr(0, j) : x.substr(i) + pad;
            memcpy(m, y.data(), y.size());
            size_t a = e ? i : 0, b = e ? j : j - i;
            step();
            char *r = up ? charstr_ucase_substr(m + a, m + b) : charstr_lcase_substr(m + a, m + b);
            // a NUL byte ends the string as well
            size_t nul = y.find('\0', a);
            MC_CHECK(r == m + a, "case conversion of a sub-string of %s does not return its argument", quote(x).c_str());
            std::string got(m, y.size());
            std::string want = conv(y, a, b, up), want2 = conv(y, a, nul == y.npos ? b : std::min(b, nul), up);
            MC_CHECK(got == want || got == want2, "case conversion of bytes %zu..%zu of %s gives %s", a, b, quote(y).c_str(), quote(got).c_str());
        }
    }
}

// Operations on two strings, each flush with an edge.
static void two(const std::string &a, const std::string &b)
{
    Area &A = area(0), &B = area(1);
    std::string want;
    bool have = false;
    auto sign = [](int c) { return c < 0 ? -1 : c > 0; };
    for (int pl = 0; pl < 2 + NA; pl++) {
        arena_reset();
        std::string ya = a + '\0', yb = b + '\0';
        const char *p = pl < 2 ? A.at_end(ya, BEFORE[pl]) : A.at_start(ya, AFTER[pl - 2]);
        const char *q = pl < 2 ? B.at_end(yb, BEFORE[pl]) : B.at_start(yb, AFTER[(pl - 2 + (a.size() & 1)) % NA]);
        std::string got = num(sign(charstr_case_cmp(p, q)));
        const char *r = charstr_skip_prefix(p, q);
        got += r ? num(r - p) : "NULL;";
        r = charstr_case_skip_prefix(p, q);
        got += r ? num(r - p) : "NULL;";
        r = charstr_case_starts_with(p, q);
        got += r ? num(r - p) : "NULL;";
        r = charstr_ncase_starts_with(p, q);
        got += r ? num(r - p) : "NULL;";
        got += num(charstr_ends_with(p, q));
        if (b.size()) got += heap_list(charstr_split_str(p, q, -1)) + heap_list(charstr_split_str(p, q, 1));
        step(6);
        if (!have) { have = true; want = got; }
        MC_CHECK(got == want, "comparing or splitting %s and %s depends on what is around them", quote(a).c_str(), quote(b).c_str());
    }
    for (size_t n = 0; n <= std::max(a.size(), b.size()) + 2; n++) {
        have = false;
        int w = 0;
        for (int pl = 0; pl < 3; pl++) {
            // only the first n bytes (or those up to the terminator) are accessible
            std::string ya = (a + '\0').substr(0, n), yb = (b + '\0').substr(0, n);
            const char *p = pl < 2 ? A.at_end(ya, BEFORE[pl]) : A.at_start(ya, AFTER[2]);
            const char *q = pl < 2 ? B.at_end(yb, BEFORE[pl]) : B.at_start(yb, AFTER[1]);
            step();
            int c = sign(charstr_ncase_cmp(p, q, n));
            if (!have) { have = true; w = c; }
            MC_CHECK(c == w, "comparing at most %zu bytes of %s and %s depends on what is around them", n, quote(a).c_str(), quote(b).c_str());
        }
    }
}
static Suite pairs(const std::string &name, const std::string &bound, const Alphabet &al, int max)
{
    auto all = std::make_shared<std::vector<std::string>>();
    all->push_back("");
    for (size_t i = 0, lo = 0, len = 1; len <= (size_t)max; len++) {
        size_t hi = all->size();
        for (i = lo; i < hi; i++) for (auto &s : al) all->push_back((*all)[i] + s);
        lo = hi;
    }
    return numbered(name, bound, all->size(), [all](uint64_t i) {
        const std::string &a = (*all)[i];
        for (auto &b : *all) { std::string c = a + '|' + b; current(c.data(), c.size()); two(a, b); }
    });
}

static void encode_all(uint64_t blk)
{
    for (int c = blk << 8; c < (int)((blk + 1) << 8); c++) {
        if (c > 0x110000 && (c & 0xff)) continue;
        for (size_t room = 0; room <= 6; room++) for (int e = 0; e < 2; e++) {
            Out o = out_at(e, room, 0x55 + e);
            step();
            char *r = charstr_encode_utf8_codepoint(c, o.p, o.end());
            if (r) MC_CHECK(r > o.p && r <= o.end(), "encoding U+%04X into %zu bytes returns a pointer to offset %ld", c, room, (long)(r - o.p));
            std::string nm = "U+" + std::to_string(c);
            out_check("encoding", nm, e, o, 0x55 + e);
            if (r) for (char *q = r; q < o.end(); q++) MC_CHECK(*q == 0x55 + e, "encoding U+%04X writes past the end it returns", c);
        }
    }
}

void mc::suites(std::vector<Suite> &out)
{
    dst();
    using ops_t = std::vector<Op>;
    auto mk = [](ops_t v) { auto p = std::make_shared<ops_t>(v); return [p](const std::string &x) { run_ops(*p, x); }; };
    const int d = thorough ? 2 : 1;
    Alphabet uni = {std::string(1, '\0'), "a", "\xc3", "\xa9", "\xcc\x81", "\xcc\xa3", "\xe1", "\x84", "\x80", "\xea\xb0\x81", "\xf0\x9d\x85\x9e", "\xf0", "\x9d", "\xf0\x9d\x85\xa5", "\xff", "\xe1\xbe\x82"};
    out.push_back(words("unicode", "all strings of up to " + std::to_string(3 + d) + " of 16 whole and broken characters, every output size, both edges, 13 surroundings", uni, 0, 3 + d, mk(unicode_ops()), false, 500));
    out.push_back(words("unicode-bytes", "all strings of 2 bytes, every output size, both edges, 13 surroundings", all_bytes(0), 1, 2, mk(unicode_ops()), false, 500));
    out.push_back(numbered("unicode-codepoints", "every code point whole and cut short at every byte, after a letter and before a mark, every output size", 0x1100, [](uint64_t blk) {
        static const ops_t ops = unicode_ops();
        for (int c = blk << 8; c < (int)((blk + 1) << 8); c++) {
            if (!ref::scalar(c)) continue;
            if (!thorough && c >= 0x3000 && c % 16 && !(c >= 0x1d100 && c < 0x1d200) && !(c >= 0xf900 && c < 0xfb50)) continue;
            std::string x = ref::utf8(c);
            current(x.data(), x.size());
            run_ops(ops, x);
            for (size_t k = 1; k < x.size(); k++) run_ops(ops, "a" + x.substr(0, k));
            if (c < 0x2000) run_ops(ops, x + "\xcc\x81");
        }
    }));
    out.push_back(numbered("unicode-long", "letters followed by 0..130 marks of 4 patterns, every output size near both ends", 131, [](uint64_t n) {
        for (int pat = 0; pat < 4; pat++) {
            std::string x = pat == 3 ? "\xe4\xb8\xad" : "a";
            for (size_t i = 0; i < n; i++) x += pat == 0 ? "\xcc\x81" : pat == 1 ? (i & 1 ? "\xcc\xa3" : "\xcd\x85") : pat == 2 ? "\xf0\x9d\x85\xa5" : "\xe3\x82\x99";
            for (int dec = 0; dec < 2; dec++) for (size_t cut = 0; cut < 6; cut++) for (size_t back = 0; back < 6 && back < x.size(); back++) {
                std::string y = x.substr(0, x.size() - back);
                size_t room = y.size() + 1 > cut ? y.size() + 1 - cut : 0;
                for (int e = 0; e < 2; e++) {
                    arena_reset();
                    Out o = out_at(e, room, 0x77);
                    const char *s = area(0).at_end(y, "");
                    step();
                    char *r = dec ? charstr_unicode_decompose(s, s + y.size(), o.p, o.end()) : charstr_unicode_recompose(s, s + y.size(), o.p, o.end());
                    MC_CHECK(!r || (r >= o.p && r < o.end() && !*r), "normalizing %s returns a pointer outside the output or not to a NUL", quote(y).c_str());
                    out_check("normalizing", y, e, o, 0x77);
                }
            }
        }
    }));
    out.push_back(numbered("encode", "every code point and values beyond, room 0..6, both edges", 0x1200, encode_all));
    Alphabet asc = {"a", "Z", ",", " ", "\t", "%", "4", "1", "+", "\xe4", "="};
    out.push_back(words("ascii", "all strings of up to " + std::to_string(3 + d) + " of 11 characters: duplication, stripping, splitting (every array size), URL conversion, both edges, 13 surroundings", asc, 0, 3 + d, mk(ascii_ops()), false, 500));
    Alphabet url = {"%", "4", "g", "0", "+"};
    out.push_back(words("url", "all strings of up to 6 escape characters: URL decoding", url, 4, 6, mk({ascii_ops()[7]}), false, 500));
    out.push_back(words("ascii-bytes", "every byte and pair of bytes", all_bytes(1), 1, 2, mk({ascii_ops()[2], ascii_ops()[3], ascii_ops()[6], ascii_ops()[7]}), false, 500));
    Alphabet b64 = {"A", "z", "+", "-", "=", " ", "\n", "!", std::string(1, '\0')};
    out.push_back(words("base64", "all strings of up to " + std::to_string(5 + d) + " of 9 characters, encoded and decoded with every destination size", b64, 0, 5 + d, mk(base64_ops()), false, 500));
    out.push_back(numbered("base64-long", "strings of 0..300 bytes, encoded and decoded with every destination size", 301, [](uint64_t n) {
        static const ops_t ops = base64_ops();
        std::string x, y;
        for (size_t i = 0; i < n; i++) { x += "Qx9/"[i % 4]; y += (char)(i * 37); }
        if (n < 60 || thorough) { run_ops(ops, x); run_ops(ops, x + "="); run_ops(ops, x + "=="); run_ops({ops[0], ops[2]}, y); }
        else { run_ops({ops[2], ops[6]}, x); run_ops({ops[2], ops[6]}, x + "="); run_ops({ops[2]}, y); }
    }));
    Alphabet idna = {"a", ".", "-", "\xc3\xa4", "\xc3\x84", "\xcc\x88", "\xe3\x80\x82", "\xc2\xad", "\xff", "\xe4\xb8\xad"};
    out.push_back(words("idna", "all names of up to " + std::to_string(4 + d) + " of 10 symbols, both edges, 13 surroundings", idna, 0, 4 + d, mk(idna_ops()), false, 500));
    out.push_back(numbered("idna-long", "names of 0..1100 characters of 8 patterns, whole and cut by one byte, both edges", 1101, [](uint64_t n) {
        static const ops_t ops = idna_ops();
        for (int pat = 0; pat < 8; pat++) {
            std::string x;
            for (size_t i = 0; i < n; i++)
                x += pat == 0 ? (i % 40 == 39 ? "." : "b") : pat == 1 ? "\xc3\xa4" : pat == 2 ? (i % 50 == 49 ? "." : "\xc3\xa4") : pat == 3 ? (i % 20 == 19 ? "." : "\xf0\xa0\x80\x80") : pat == 4 ? (i & 1 ? "\xcc\x88" : "a") : pat == 5 ? "\xef\xb7\xba" : pat == 6 ? (i % 8 == 7 ? "." : i % 8 == 0 ? "\xe3\x8f\xbe" : "\xe3\x8b\x87") : (i % 9 == 8 ? "\xe3\x80\x82" : "\xe1\x84\x80\xe1\x85\xa1\xe1\x86\xa8");
            if (pat == 0) x += "\xc3\xa4";
            for (size_t back = 0; back < 2 && back < x.size(); back++) {
                std::string y = x.substr(0, x.size() - back);
                if (y.size() < 12000) run_ops(ops, y);
            }
        }
    }));
    Alphabet cs = {"a", "A", "z", "Z", "@", "[", "\xe1", std::string(1, '\0')};
    out.push_back(words("case-in-place", "all strings of up to " + std::to_string(4 + d) + " of 8 characters, every sub-string, both edges", cs, 0, 4 + d, [](const std::string &x) { case_inplace(x); }, false, 500));
    Alphabet cm = {"a", "A", "b", "\xe1"};
    out.push_back(pairs("pairs", "all pairs of strings of up to " + std::to_string(3 + d) + " of 4 characters: comparison with every bound, prefixes, suffixes, splitting at strings", cm, 3 + d));
    Alphabet cm2 = {"a", "A"};
    out.push_back(pairs("pairs-long", "all pairs of strings of up to 5 of 2 characters", cm2, 5));
}
