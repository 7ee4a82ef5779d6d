#include <sys/mman.h>
// C19: splitting, stripping, duplicating, formatting.
#include "text.hpp"
#include "charstr.h"
#include <set>
using namespace mc;

typedef std::vector<std::string> V;
static V ref_split(const std::string &s, const std::string &d, unsigned max)
{
    V v; size_t from = 0;
    while (max--) {
        size_t p = s.find(d, from);
        if (p == std::string::npos) break;
        v.push_back(s.substr(from, p - from));
        from = p + d.size();
    }
    v.push_back(s.substr(from));
    return v;
}
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; }
static V ref_atoms(const std::string &s)
{
    V v; std::string cur;
    for (char c : s + " ") {
        if (ws(c)) { if (!cur.empty()) v.push_back(cur); cur.clear(); }
        else cur += c;
    }
    return v;
}
static std::string show(const V &v) { std::string r = "["; for (auto &x : v) r += (r.size() > 1 ? ", " : "") + quote(x); return r + "]"; }
static std::set<const void *> seen;
static void fresh(const void *p, const char *what, const std::string &s)
{
    MC_CHECK(p && arena_is_live(p), "%s of %s returns a string that is not a block of its own", what, quote(s).c_str());
    MC_CHECK(seen.insert(p).second, "%s of %s returns the same block twice", what, quote(s).c_str());
}
static V take(list_t *l, const char *what, const std::string &s)
{
    V v;
    seen.clear();
    MC_CHECK(l && arena_is_live(l), "%s of %s returns no fresh list", what, quote(s).c_str());
    for (list_elem_t *e = list_get_first(l); e; e = list_next(e)) {
        char *p = (char *)list_elem_get_value(e);
        fresh(p, what, s);
        v.push_back(p);
        MC_CHECK(v.size() < 1000000, "%s of %s yields an endless list", what, quote(s).c_str());
    }
    for (list_elem_t *e = list_get_first(l); e; e = list_next(e)) fsfree((void *)list_elem_get_value(e));
    destroy_list(l);
    step();
    return v;
}
static const unsigned LIMITS[] = {0, 1, 2, 3, 4, 5, 6, 0x7fffffffu, 0x80000000u, (unsigned)-1};

static void check_char(const std::string &s, char d)
{
    for (unsigned max : LIMITS) {
        V want = ref_split(s, std::string(1, d), max);
        V got = take(charstr_split(s.c_str(), d, max), "charstr_split", s);
        outcome(want.size());
        MC_CHECK(got == want, "charstr_split(%s, %s, %d) gives %s instead of %s", quote(s).c_str(), quote(std::string(1, d)).c_str(), (int)max, show(got).c_str(), show(want).c_str());
        if (max > 6 && max + 1 != 0) continue;
        unsigned amax = max > 6 ? s.size() + 1 : max;
        want = ref_split(s, std::string(1, d), amax);
        char *a[64];
        for (unsigned i = 0; i <= amax + 1; i++) a[i] = (char *)0x5a5a;
        unsigned n = charstr_split_into_array(s.c_str(), d, a, amax);
        MC_CHECK(n + 1 == want.size(), "charstr_split_into_array(%s, %s, %u) reports %u splits instead of %zu", quote(s).c_str(), quote(std::string(1, d)).c_str(), amax, n, want.size() - 1);
        got.clear(); seen.clear();
        for (unsigned i = 0; i <= n; i++) { fresh(a[i], "charstr_split_into_array", s); got.push_back(a[i]); }
        MC_CHECK(a[amax + 1] == (char *)0x5a5a, "charstr_split_into_array(%s, %s, %u) writes past the array", quote(s).c_str(), quote(std::string(1, d)).c_str(), amax);
        for (unsigned i = 0; i <= n; i++) fsfree(a[i]);
        MC_CHECK(got == want, "charstr_split_into_array(%s, %s, %u) gives %s instead of %s", quote(s).c_str(), quote(std::string(1, d)).c_str(), amax, show(got).c_str(), show(want).c_str());
        step();
    }
}
static void check_str(const std::string &s, const std::string &d)
{
    for (unsigned max : LIMITS) {
        V want = ref_split(s, d, max);
        V got = take(charstr_split_str(s.c_str(), d.c_str(), max), "charstr_split_str", s);
        MC_CHECK(got == want, "charstr_split_str(%s, %s, %d) gives %s instead of %s", quote(s).c_str(), quote(d).c_str(), (int)max, show(got).c_str(), show(want).c_str());
    }
}
static void check_ws(const std::string &s)
{
    V want = ref_atoms(s), got = take(charstr_split_atoms(s.c_str()), "charstr_split_atoms", s);
    outcome(100 + want.size());
    MC_CHECK(got == want, "charstr_split_atoms(%s) gives %s instead of %s", quote(s).c_str(), show(got).c_str(), show(want).c_str());
    size_t a = 0, b = s.size();
    while (a < b && ws(s[a])) a++;
    while (a < b && ws(s[b - 1])) b--;
    char *p = charstr_strip(s.c_str());
    seen.clear();
    fresh(p, "charstr_strip", s);
    MC_CHECK(s.substr(a, b - a) == p, "charstr_strip(%s) gives %s", quote(s).c_str(), quote(p).c_str());
    fsfree(p);
    step();
}
static void check_dup(const std::string &s)
{
    // s may contain NUL bytes
    const char *c = s.c_str();
    char *p = charstr_dupstr(c);
    seen.clear(); fresh(p, "charstr_dupstr", s);
    MC_CHECK(!strcmp(p, c), "charstr_dupstr(%s) gives %s", quote(s).c_str(), quote(p).c_str());
    fsfree(p);
    p = charstr_dupsubstr(c, nullptr);
    seen.clear(); fresh(p, "charstr_dupsubstr", s);
    MC_CHECK(!strcmp(p, c), "charstr_dupsubstr(%s, NULL) gives %s", quote(s).c_str(), quote(p).c_str());
    fsfree(p);
    for (size_t i = 0; i <= s.size(); i++) for (size_t e = i; e <= s.size(); e++) {
        p = charstr_dupsubstr(c + i, c + e);
        seen.clear(); fresh(p, "charstr_dupsubstr", s);
        MC_CHECK(arena_block_size(p) > e - i && !memcmp(p, c + i, e - i) && !p[e - i], "charstr_dupsubstr of bytes %zu..%zu of %s is wrong", i, e, quote(s).c_str());
        fsfree(p);
        step();
    }
    step(2);
}
static void expect(char *p, const std::string &want, const char *what)
{
    seen.clear(); fresh(p, what, want.substr(0, 100));
    MC_CHECK(arena_block_size(p) > want.size() && !memcmp(p, want.c_str(), want.size() + 1), "%s gives %s instead of %s (%zu characters)", what, quote(std::string(p).substr(0, 200)).c_str(), quote(want.substr(0, 200)).c_str(), want.size());
    fsfree(p);
    step();
}
static char *vp(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *p = charstr_vprintf(f, ap);
    va_end(ap);
    return p;
}

void mc::suites(std::vector<Suite> &out)
{
    out.push_back(numbered("null", "NULL arguments", 1, [](uint64_t) {
        MC_CHECK(!charstr_strip(nullptr) && !charstr_dupstr(nullptr) && !charstr_dupsubstr(nullptr, nullptr), "a NULL string does not give NULL");
        step(3);
    }));
    out.push_back(words("split-char", std::string("all strings of up to ") + (thorough ? "11" : "8") + " characters over 3, split at each with 10 limits; list and array variants", bytes_of("a,\xff"), 0, thorough ? 11 : 8, [](const std::string &s) {
        check_char(s, ','); check_char(s, '\xff'); check_char(s, 'z');
    }));
    out.push_back(numbered("split-any", "every delimiter byte", 255, [](uint64_t d) {
        char c = (char)(d + 1), o = c == 'x' ? 'y' : 'x';
        for (const std::string &s : {std::string(1, c), std::string(2, c), std::string(1, o) + c, std::string(1, c) + o, std::string(1, o) + c + o + c, std::string(1, (char)(c ^ 0x80)) + c}) {
            arena_reset();
            if (s[0]) check_char(s, c);
            if (s[0]) check_str(s, std::string(1, c));
        }
    }));
    auto delims = std::make_shared<V>(V{"a", "ab", "aa", "aab", "aba", "ba", "aaa", "abab"});
    out.push_back(words("split-str", std::string("all strings of up to ") + (thorough ? "14" : "12") + " characters over 2 letters, split at 8 delimiter strings with 10 limits", bytes_of("ab"), 0, thorough ? 14 : 12, [delims](const std::string &s) {
        for (auto &d : *delims) { arena_reset(); check_str(s, d); }
    }));
    Alphabet three = bytes_of("ab,");
    out.push_back(words("split-str-3", std::string("all strings of up to ") + (thorough ? "8" : "7") + " characters over 3 letters with all delimiters of up to 2", three, 0, thorough ? 8 : 7, [three](const std::string &s) {
        for (auto &x : three) { arena_reset(); check_str(s, x); for (auto &y : three) check_str(s, x + y); }
    }));
    out.push_back(words("white-space", std::string("all strings of up to ") + (thorough ? "7" : "6") + " characters over the 5 white-space characters and 6 others", bytes_of(" \t\n\f\r\vab\xa0\x85_"), 0, thorough ? 7 : 6, check_ws));
    out.push_back(words("white-space-long", std::string("all strings of up to ") + (thorough ? "13" : "12") + " characters over space, LF and a letter", bytes_of(" \na"), 6, thorough ? 13 : 12, check_ws));
    out.push_back(words("white-space-any", "all strings of 2 arbitrary characters", all_bytes(1), 1, 2, check_ws));
    out.push_back(words("dup", std::string("all strings of up to ") + (thorough ? "8" : "7") + " bytes over 3 incl. NUL, every sub-string", bytes_of(std::string("a\xff\0", 3)), 0, thorough ? 8 : 7, check_dup));
    out.push_back(numbered("dup-long", "strings of 0..3000 bytes", 3001, [](uint64_t n) {
        std::string s(n, 'x');
        for (size_t i = 0; i < n; i++) s[i] = 1 + i % 255;
        char *p = charstr_dupstr(s.c_str());
        MC_CHECK(p && s == p, "charstr_dupstr of %zu bytes is wrong", (size_t)n);
        std::string t = " \t" + s + "!\r\n";
        while (n && ws(s[0])) s.erase(0, 1), t.erase(2, 1), n--;
        p = charstr_strip(t.c_str());
        size_t a = t.find_first_not_of(" \t\n\f\r"), b = t.find_last_not_of(" \t\n\f\r");
        MC_CHECK(p && t.substr(a, b - a + 1) == p, "charstr_strip of %zu bytes is wrong", t.size());
        std::string u;
        V want;
        for (size_t i = 0; i < n && i < 400; i++) { want.push_back(std::to_string(i)); u += (i ? "," : "") + want.back(); }
        if (want.empty()) want.push_back("");
        V got = take(charstr_split(u.c_str(), ',', -1), "charstr_split", "a long string");
        MC_CHECK(got == want, "charstr_split into %zu fields is wrong", want.size());
        got = take(charstr_split_str(u.c_str(), ",", -1), "charstr_split_str", "a long string");
        MC_CHECK(got == want, "charstr_split_str into %zu fields is wrong", want.size());
        step(2);
    }));
    out.push_back(numbered("printf-length", "formatted results of every length 0..5000 and around 2^13 .. 2^25", 5001 + 13 * 6, [](uint64_t i) {
        size_t n = i <= 5000 ? i : ((size_t)1 << (13 + (i - 5001) / 6)) - 4 + (i - 5001) % 6;
        arena_limit = (size_t)1 << 30;
        std::string s(n, 'a');
        for (size_t k = 0; k < n; k++) s[k] = 'a' + k % 26;
        expect(charstr_printf("%s", s.c_str()), s, "charstr_printf");
        expect(vp("%s", s.c_str()), s, "charstr_vprintf");
        char num[64]; snprintf(num, sizeof num, "%zu", n);
        std::string w = (n > strlen(num) ? std::string(n - strlen(num), ' ') : "") + num;
        expect(charstr_printf("%*zu", (int)n, n), w, "charstr_printf");
        expect(vp("%s|%d|%s", s.c_str(), 42, s.c_str()), s + "|42|" + s, "charstr_vprintf");
        if (n <= 4000) {                    // the format itself is long
            std::string f = s + "%c" + s;
            expect(vp(f.c_str(), 'X'), s + "X" + s, "charstr_vprintf");
        }
    }));
    out.push_back(numbered("split-array-limits", "splitting into (lazily backed) arrays of 2^31-1, 2^31 and 2^32 elements", 3, [](uint64_t i) {
        size_t max = i == 0 ? 0x7ffffffe : i == 1 ? 0x7fffffff : 0xffffffff;
        size_t bytes = (max + 1) * sizeof(char *);
        char **a = (char **)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a == MAP_FAILED) return;
        for (const char *t : {"", "a", ",", "a,b,,c", "one,two,three,"}) {
            std::string s = t;
            V want = ref_split(s, ",", (unsigned)max);
            unsigned n = charstr_split_into_array(s.c_str(), ',', a, (unsigned)max);
            MC_CHECK(n + 1 == want.size(), "charstr_split_into_array(%s, ',', %zu) reports %u splits instead of %zu", quote(s).c_str(), max, n, want.size() - 1);
            for (unsigned k = 0; k <= n; k++) { MC_CHECK(want[k] == a[k], "field %u of charstr_split_into_array(%s, ',', %zu) is %s", k, quote(s).c_str(), max, quote(a[k]).c_str()); fsfree(a[k]); }
            step();
        }
        munmap(a, bytes);
    }));
    out.push_back(numbered("printf-forms", "conversions of every kind and refusals", 1, [](uint64_t) {
        expect(charstr_printf("plain"), "plain", "charstr_printf");
        expect(charstr_printf("%s", ""), "", "charstr_printf");
        expect(charstr_printf("%%"), "%", "charstr_printf");
        expect(charstr_printf("%c%s%c", 'a', "bc", 0), std::string("abc\0", 4), "charstr_printf");
        for (long v : {0l, 1l, -1l, 2147483647l, -2147483648l, 9223372036854775807l, -9223372036854775807l - 1}) {
            char b[200];
            snprintf(b, sizeof b, "%ld %lu %lx %#lo %+ld %020ld %-25ld|", v, v, v, v, v, v, v);
            expect(charstr_printf("%ld %lu %lx %#lo %+ld %020ld %-25ld|", v, v, v, v, v, v, v), b, "charstr_printf");
            expect(vp("%ld %lu %lx %#lo %+ld %020ld %-25ld|", v, v, v, v, v, v, v), b, "charstr_vprintf");
        }
        for (double d : {0.0, -1.5, 1e300, 1e-300}) {
            char b[1000];
            snprintf(b, sizeof b, "%f %g %e %.3f %a", d, d, d, d, d);
            expect(vp("%f %g %e %.3f %a", d, d, d, d, d), b, "charstr_vprintf");
        }
        char many[400];
        snprintf(many, sizeof many, "%d%s%c%ld%f%d%s%c%ld%f%d%s", 1, "two", '3', 4l, 5.0, 6, "seven", '8', 9l, 10.0, 11, "twelve");
        expect(vp("%d%s%c%ld%f%d%s%c%ld%f%d%s", 1, "two", '3', 4l, 5.0, 6, "seven", '8', 9l, 10.0, 11, "twelve"), many, "charstr_vprintf");
        wchar_t bad[] = {0x12345, 0};
        for (int i = 0; i < 2; i++) {
            errno = 0;
            char *p = i ? vp("abc%ls", bad) : charstr_printf("abc%ls", bad);
            MC_CHECK(!p && errno == EILSEQ, "an unformattable request is not refused properly (%s, errno %d)", p ? "result" : "NULL", errno);
            p = i ? vp("%99999999999d", 1) : charstr_printf("%99999999999d", 1);
            MC_CHECK(!p, "an unformattable request is not refused");
        }
        step(4);
    }));
    out.push_back(numbered("split-many", "0..80 fields of 3 kinds split at a character or a string of 1..3 characters with every limit up to 82; list and array variants", 81, [](uint64_t f) {
        for (int kind = 0; kind < 3; kind++) for (const std::string &d : {std::string(","), std::string("::"), std::string("aab")}) {
            std::string s;
            for (size_t i = 0; i < f; i++) s += (kind == 0 ? "" : kind == 1 ? std::to_string(i) : std::string(i % 7, 'a')) + d;
            s += "end";
            for (unsigned max = 0; max <= 82; max++) {
                arena_reset();
                V want = ref_split(s, d, max);
                MC_CHECK(take(charstr_split_str(s.c_str(), d.c_str(), max), "charstr_split_str", s) == want, "charstr_split_str(%s, %s, %u) is wrong", quote(s).c_str(), d.c_str(), max);
                if (d.size() > 1) continue;
                MC_CHECK(take(charstr_split(s.c_str(), d[0], max), "charstr_split", s) == want, "charstr_split(%s, ',', %u) is wrong", quote(s).c_str(), max);
                char *a[90];
                for (char *&x : a) x = (char *)0x5a5a;
                unsigned n = charstr_split_into_array(s.c_str(), d[0], a, max);
                MC_CHECK(n + 1 == want.size() && a[n + 1] == (char *)0x5a5a, "charstr_split_into_array(%s, ',', %u) reports %u splits instead of %zu", quote(s).c_str(), max, n, want.size() - 1);
                for (unsigned i = 0; i <= n; i++) { MC_CHECK(want[i] == a[i], "field %u of charstr_split_into_array(%s, ',', %u) is %s", i, quote(s).c_str(), max, quote(a[i]).c_str()); fsfree(a[i]); }
                step();
            }
        }
    }));
    out.push_back(numbered("split-counts", "255 to 65537 fields and atoms, with limits around that number and none", 8, [](uint64_t no) {
        static const size_t counts[] = {255, 256, 257, 1023, 4096, 32768, 65535, 65537};
        size_t n = counts[no];
        std::string s, w;
        for (size_t i = 0; i < n; i++) { s += (char)('a' + i % 23); s += ','; w += (char)('a' + i % 23); w += " \t\n"[i % 3]; }
        s += "end";
        std::vector<char *> a(n + 3);
        for (unsigned max : {(unsigned)n - 1, (unsigned)n, (unsigned)n + 1, -1u}) {
            arena_reset(); arena_limit = 512u << 20;
            V want = ref_split(s, ",", max);
            MC_CHECK(take(charstr_split(s.c_str(), ',', max), "charstr_split", "a long string") == want, "charstr_split of %zu fields, limit %u, is wrong", n + 1, max);
            if (max == n) MC_CHECK(take(charstr_split_str(s.c_str(), ",", max), "charstr_split_str", "a long string") == want, "charstr_split_str of %zu fields, limit %u, is wrong", n + 1, max);
            if (max <= n + 1) {
                unsigned k = charstr_split_into_array(s.c_str(), ',', a.data(), max);
                MC_CHECK(k + 1 == want.size(), "charstr_split_into_array of %zu fields, limit %u, reports %u splits", n + 1, max, k);
                for (unsigned i = 0; i <= k; i++) { MC_CHECK(want[i] == a[i], "field %u of charstr_split_into_array is wrong", i); fsfree(a[i]); }
            }
            step();
        }
        MC_CHECK(take(charstr_split_atoms(w.c_str()), "charstr_split_atoms", "a long string") == ref_atoms(w), "charstr_split_atoms of %zu atoms is wrong", n);
    }));
    out.push_back(numbered("fields-long", "fields, atoms, white-space runs and delimiter strings of 1..400 characters and around powers of two up to 2^17 (delimiters 2^14)", ladder(400, 17).size() - 1, [](uint64_t no) {
        size_t n = ladder(400, 17)[no + 1];
        std::string x(n, 'a'), w(n, ' ');
        for (size_t i = 0; i < n; i++) { x[i] = 'a' + i % 23; w[i] = " \t\n\f\r"[i % 5]; }
        arena_reset();
        for (const std::string &s : {x, x + "," + x, "," + x + ",", x + ",,b," + x})
            MC_CHECK(take(charstr_split(s.c_str(), ',', -1), "charstr_split", "a long string") == ref_split(s, ",", -1), "charstr_split is wrong with fields of %zu characters", n);
        arena_reset();
        if (n < 20000) for (const std::string &s : {x + x.substr(0, n - 1) + "!" + x + "b", x + x, "a" + x, x.substr(1) + x + x.substr(0, n - 1), x.substr(0, n - 1)})
            for (unsigned max : {0u, 1u, -1u})
                MC_CHECK(take(charstr_split_str(s.c_str(), x.c_str(), max), "charstr_split_str", "a long string") == ref_split(s, x, max), "charstr_split_str is wrong with a delimiter of %zu characters", n);
        arena_reset();
        for (const std::string &s : {x, w, w + x, x + w, w + x + w + x + w, "a" + w + "b", x + " " + x}) {
            MC_CHECK(take(charstr_split_atoms(s.c_str()), "charstr_split_atoms", "a long string") == ref_atoms(s), "charstr_split_atoms is wrong with runs of %zu characters", n);
            char *p = charstr_strip(s.c_str());
            size_t a = s.find_first_not_of(" \t\n\f\r"), b = s.find_last_not_of(" \t\n\f\r");
            MC_CHECK(p && (a == std::string::npos ? "" : s.substr(a, b - a + 1)) == p, "charstr_strip is wrong with runs of %zu characters", n);
            step();
        }
        arena_reset();
        char *p = charstr_dupstr(x.c_str());
        MC_CHECK(p && x == p, "charstr_dupstr of %zu characters is wrong", n);
        p = charstr_dupsubstr(x.c_str() + n / 3, x.c_str() + n - n / 4);
        MC_CHECK(p && x.substr(n / 3, n - n / 4 - n / 3) == p, "charstr_dupsubstr from %zu characters is wrong", n);
        step(2);
    }));
}
