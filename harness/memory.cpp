// C09: every module in ownership mode: strict accounting in the allocator
// hook, no other allocator, nothing left after everything was destroyed.
#include "text.hpp"
#include "charstr.h"
#include "base64.h"
#include "list.h"
#include "date.h"
#include "float.h"
#include "hashtable.h"
#include "integer.h"
#include <ctime>
using namespace mc;
void avl_suites(std::vector<Suite> &out, bool alloc, bool deciding_cost);
void list_suites(std::vector<Suite> &out, bool alloc);
void hash_suites(std::vector<Suite> &out, bool alloc);
void prq_suites(std::vector<Suite> &out, bool alloc, bool loc);
void bytes_suites(std::vector<Suite> &out, bool alloc);
void intset_suites(std::vector<Suite> &out, bool alloc);

static void none(const char *what, const std::string &in)
{
    step();
    if (arena_live()) alloc_fail("%s of %s leaves %zu block(s) allocated (%s)", what, quote(in).c_str(), arena_live(), arena_describe_live().c_str());
}
static void give(const char *what, const std::string &in, void *p)
{
    outcome(p != nullptr);
    if (p) {
        if (!arena_is_live(p)) alloc_fail("%s of %s returns a string that is not a block of the allocator", what, quote(in).c_str());
        fsfree(p);
    }
    none(what, in);
}
static void give(const char *what, const std::string &in, list_t *l)
{
    if (l) {
        while (!list_empty(l)) {
            void *p = (void *)list_pop_first(l);
            if (!p || !arena_is_live(p)) alloc_fail("%s of %s returns a string that is not a block of the allocator", what, quote(in).c_str());
            fsfree(p);
        }
        destroy_list(l);
    }
    none(what, in);
}
static void unicode(const std::string &x)
{
    const char *s = x.c_str(), *e = s + x.size();
    static char b[1 << 16];
    give("sanitizing", x, charstr_sanitize_utf8(s));
    give("host name encoding", x, charstr_idna_encode(s));
    int c;
    charstr_decode_utf8_codepoint(s, e, &c);
    charstr_valid_utf8(s); charstr_valid_utf8_bounded(s, e);
    charstr_unicode_canonically_composed(s, e); charstr_unicode_canonically_decomposed(s, nullptr);
    for (size_t room : {(size_t)0, (size_t)1, x.size(), 3 * x.size() + 1}) { charstr_unicode_decompose(s, e, b, b + room); charstr_unicode_recompose(s, e, b, b + room); }
    none("normalization", x);
}
static void ascii(const std::string &x)
{
    const char *s = x.c_str(), *e = s + x.size();
    give("duplication", x, charstr_dupstr(s));
    for (size_t i = 0; i <= x.size(); i++) give("sub-string duplication", x, charstr_dupsubstr(s + i, e));
    give("stripping", x, charstr_strip(s));
    give("splitting into atoms", x, charstr_split_atoms(s));
    for (unsigned m : {0u, 1u, 2u, 7u, (unsigned)-1}) {
        give("splitting", x, charstr_split(s, ',', m));
        give("splitting at a string", x, charstr_split_str(s, ",,", m));
        give("splitting at a string", x, charstr_split_str(s, "a", m));
        if (m < 10) {
            char *v[16];
            unsigned n = charstr_split_into_array(s, ',', v, m);
            for (unsigned i = 0; i <= n && i < 16; i++) { if (!arena_is_live(v[i])) alloc_fail("splitting %s into an array gives a string that is not a block of the allocator", quote(x).c_str()); fsfree(v[i]); }
            none("splitting into an array", x);
        }
    }
    give("URL encoding", x, charstr_url_encode(s));
    size_t n;
    for (int k = 0; k < 4; k++) give("URL decoding", x, charstr_url_decode(s, k & 1, k & 2 ? &n : nullptr));
    for (const char *r : {"", "a", ",+"}) {
        auto *enc = charstr_create_url_encoder(r, s);
        charstr_url_custom_encode_byte(enc, 'a');
        char *p = charstr_url_custom_encode(enc, s);
        fsfree(p);
        charstr_destroy_url_encoder(enc);
        none("a custom URL encoder", x);
        enc = charstr_create_url_encoder(s, r);
        p = charstr_url_custom_encode(enc, s);
        charstr_destroy_url_encoder(enc);
        fsfree(p);
        none("a custom URL encoder", x);
    }
    give("formatting", x, charstr_printf("%s", s));
    give("formatting", x, charstr_printf("%s%d%s", s, 5, s));
    wchar_t bad[] = {0x41, (wchar_t)0x7fffffff, 0};
    give("refused formatting", x, charstr_printf("%s%ls", s, bad));
    charstr_case_cmp(s, "Ab"); charstr_skip_prefix(s, "a"); charstr_ends_with(s, "a");
    none("comparison", x);
    std::string y = x;
    charstr_lcase_str(&y[0]); charstr_ucase_str(&y[0]);
    hash_string(s); hash_blob(s, x.size());
    none("case conversion or hashing", x);
}
static void base64(const std::string &x)
{
    size_t n;
    give("base64 decoding", x, base64_decode_simple(x.c_str(), &n));
    give("base64 encoding", x, base64_encode_simple(x.data(), x.size()));
    char b[64];
    base64_decode_buffer(x.data(), x.size(), b, 64, -1, -1, true);
    base64_encode_buffer(x.data(), x.size(), b, 64, -1, -1);
    none("base64 conversion", x);
}
static void prefixed(std::vector<Suite> &out, const char *pre, std::function<void(std::vector<Suite> &)> f)
{
    size_t n = out.size();
    f(out);
    for (; n < out.size(); n++) if (out[n].name.compare(0, strlen(pre), pre)) out[n].name = pre + out[n].name;
}
void mc::suites(std::vector<Suite> &out)
{
    only_alloc = arena_strict = foreign_forbidden = true;
    prefixed(out, "avl-", [](auto &o) { avl_suites(o, true, false); });
    prefixed(out, "list-", [](auto &o) { list_suites(o, true); });
    prefixed(out, "hash-", [](auto &o) { hash_suites(o, true); });
    prefixed(out, "prq-", [](auto &o) { prq_suites(o, true, false); });
    prefixed(out, "bytes-", [](auto &o) { bytes_suites(o, true); });
    prefixed(out, "intset-", [](auto &o) { intset_suites(o, true); });
    const int d = thorough ? 1 : 0;
    Alphabet uni = {"a", ".", "-", "\xc3\xa4", "\xc3", "\xcc\x88", "\xe4\xb8\xad", "\xff", "\xc2\xad", "\xe3\x80\x82", " ", "\xea\xb0\x81", "\xf0\x9d\x85\x9e"};
    out.push_back(words("text-unicode", "all strings of up to " + std::to_string(4 + d) + " of 13 whole and broken characters: UTF-8, normalization, host names", uni, 0, 4 + d, unicode));
    out.push_back(numbered("text-idna-lengths", "host names of 0..1100 characters of 16 patterns (accepted, too long labels, names and combining sequences, refused)", 1101, [](uint64_t n) {
        static const char *single[] = {"\xc3\xa4", "Q", "\xcc\x88", "\xea\xb0\x81", "\xe1\x84\x80\xe1\x85\xa1", "\xc2\xad", "\xef\xb7\xba", "\xcc\xa3\xcc\x88"};
        for (int pat = 0; pat < 16; pat++) {
            std::string x;
            for (size_t i = 0; i < n; i++)
                if (pat < 8) x += single[pat];
                else if (pat == 8) x += i % 10 == 9 ? "." : "\xc3\xa4";
                else if (pat == 9) x += i & 1 ? "\xcc\x88" : "a";
                else if (pat == 10) x += i % 4 == 3 ? "." : "\xe1\x84\x80\xe1\x85\xa1";
                else if (pat == 11) x += i + 1 == n ? "\xff" : "\xc3\xa4";
                else if (pat == 12) x += i % 30 == 29 ? "." : i % 30 == 3 ? "\xc3\xa9" : i % 30 == 4 ? "\xcc\xa3" : "b";
                else if (pat == 13) x += i % 60 == 59 ? "." : i == 0 ? "e\xcc\x81" : "x";
                else if (pat == 14) x += i == 0 ? "\xc3\xa9" : i & 1 ? "\xcc\x81" : "\xcc\xa3";
                else x += i == 0 ? "a" : "\xcc\x81";
            arena_reset();
            give("host name encoding", x, charstr_idna_encode(x.c_str()));
            if (n < 200) unicode(x);
        }
    }));
    Alphabet asc = {"a", ",", " ", "\n", "%", "4", "1", "+", "\xe4"};
    out.push_back(words("text-ascii", "all strings of up to " + std::to_string(4 + d) + " of 9 characters: duplication, stripping, splitting, URL conversion, formatting, comparison", asc, 0, 4 + d, ascii));
    Alphabet b64 = {"A", "z", "/", "=", " ", "!", "\xff"};
    out.push_back(words("text-base64", "all strings of up to " + std::to_string(6 + d) + " of 7 characters: base64 conversion", b64, 0, 6 + d, base64));
    out.push_back(numbered("text-lengths", "strings of 0..2100 characters: formatting, splitting, duplication, base64, URL conversion", 2101, [](uint64_t n) {
        std::string x(n, 'k');
        for (size_t i = 0; i < n; i += 7) x[i] = i % 14 ? ' ' : ',';
        arena_reset();
        give("formatting", x, charstr_printf("%s", x.c_str()));
        give("formatting", x, charstr_printf("%*d", (int)n, 7));
        if (n % 16 < 3 || n < 200) ascii(x);
        give("base64 decoding", x, base64_encode_simple(x.data(), x.size()));
        std::string y(n / 4 * 4, 'A');
        size_t k;
        give("base64 decoding", y, base64_decode_simple(y.c_str(), &k));
        unicode(x);
    }));
    out.push_back(numbered("others", "calendar, number conversion and Unicode properties allocate nothing", 64, [](uint64_t i) {
        struct tm tm;
        arena_reset();
        epoch_to_utc(((time_t)1 << (i % 60)) * (i & 1 ? 1 : -1), &tm);
        long long a; unsigned long long b;
        binary64_to_integer(0x4059000000000000 + (i << 52), &a);
        binary64_to_unsigned(0x4059000000000000 + (i << 52), &b);
        for (int c = i * 0x4400; c < (int)(i + 1) * 0x4400; c++) { charstr_unicode_category(c); charstr_naive_lcase_unicode(c); charstr_naive_ucase_unicode(c); charstr_allowed_unicode_normal_forms(c); charstr_unicode_canonical_combining_class(c); charstr_idna_status(c); charstr_idna_mapping(c); step(7); }
        if (arena_calls()) alloc_fail("a pure conversion allocates memory");
    }));
}
